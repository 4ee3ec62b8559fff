// Recording stand-ins for the parts of VTK and ParaView Catalyst the adaptor uses (reference counting as in VTK).
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
using std::cout; using std::cerr; using std::endl; using std::ofstream; using std::ifstream; using std::ostream; // as vtkIOStream.h
#define VTK_MAJOR_VERSION 8
#define VTK_MINOR_VERSION 1
typedef long long vtkIdType;
enum { VTK_EMPTY_CELL = 0, VTK_VERTEX = 1, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_POLYGON = 7, VTK_QUAD = 9, VTK_TETRA = 10, VTK_HEXAHEDRON = 12, VTK_POLYHEDRON = 42 };
namespace standin { inline long &alive() { static long n = 0; return n; } inline std::vector<std::string> &errors() { static std::vector<std::string> e; return e; } inline void error(const std::string &s) { errors().push_back(s); } }
class vtkObjectBase { int refs = 1;
public: vtkObjectBase() { ++standin::alive(); } virtual ~vtkObjectBase() { --standin::alive(); } vtkObjectBase(const vtkObjectBase &) = delete; void operator=(const vtkObjectBase &) = delete;
  void Register(void *) { ++refs; } void UnRegister(void *) { if (--refs <= 0) delete this; } void Delete() { UnRegister(nullptr); } int GetReferenceCount() const { return refs; } };
typedef vtkObjectBase vtkObject;
#define VTK_NEW(C) static C *New() { return new C; }
template <class T> class vtkSmartPointer { T *p = nullptr; struct NoReg {}; vtkSmartPointer(T *q, NoReg) : p(q) {}
public: vtkSmartPointer() {} vtkSmartPointer(std::nullptr_t) {} vtkSmartPointer(T *q) : p(q) { if (p) p->Register(nullptr); } vtkSmartPointer(const vtkSmartPointer &o) : vtkSmartPointer(o.p) {} template <class U> vtkSmartPointer(const vtkSmartPointer<U> &o) : vtkSmartPointer((T *)o.GetPointer()) {}
  ~vtkSmartPointer() { if (p) p->UnRegister(nullptr); } vtkSmartPointer &operator=(const vtkSmartPointer &o) { return *this = o.p; } template <class U> vtkSmartPointer &operator=(const vtkSmartPointer<U> &o) { return *this = (T *)o.GetPointer(); } vtkSmartPointer &operator=(T *q) { if (q) q->Register(nullptr); T *old = p; p = q; if (old) old->UnRegister(nullptr); return *this; }
  static vtkSmartPointer New() { return vtkSmartPointer(T::New(), NoReg()); } template <class U> static vtkSmartPointer Take(U *q) { return vtkSmartPointer(q, NoReg()); } void TakeReference(T *q) { *this = vtkSmartPointer(q, NoReg()); }
  T *GetPointer() const { return p; } T *Get() const { return p; } operator T *() const { return p; } T &operator*() const { return *p; } T *operator->() const { return p; } };
template <class T> class vtkNew { T *p = T::New(); public: vtkNew() {} ~vtkNew() { p->Delete(); } vtkNew(const vtkNew &) = delete; void operator=(const vtkNew &) = delete; T *GetPointer() const { return p; } T *Get() const { return p; } T *operator->() const { return p; } T &operator*() const { return *p; } operator T *() const { return p; } };
class vtkPoints : public vtkObjectBase { public: VTK_NEW(vtkPoints) std::vector<std::array<double, 3>> v;
  vtkIdType InsertNextPoint(double x, double y, double z) { v.push_back({x, y, z}); return v.size() - 1; } vtkIdType InsertNextPoint(const double *x) { return InsertNextPoint(x[0], x[1], x[2]); } vtkIdType InsertNextPoint(const float *x) { return InsertNextPoint(x[0], x[1], x[2]); }
  void InsertPoint(vtkIdType i, double x, double y, double z) { if ((vtkIdType)v.size() <= i) v.resize(i + 1, {-1e30, -1e30, -1e30}); v[i] = {x, y, z}; } void InsertPoint(vtkIdType i, const double *x) { InsertPoint(i, x[0], x[1], x[2]); } void InsertPoint(vtkIdType i, const float *x) { InsertPoint(i, x[0], x[1], x[2]); }
  void SetNumberOfPoints(vtkIdType n) { v.resize(n, {-1e30, -1e30, -1e30}); } void SetPoint(vtkIdType i, double x, double y, double z) { if (i < 0 || i >= (vtkIdType)v.size()) { standin::error("SetPoint outside the points"); return; } v[i] = {x, y, z}; } void SetPoint(vtkIdType i, const double *x) { SetPoint(i, x[0], x[1], x[2]); } void SetPoint(vtkIdType i, const float *x) { SetPoint(i, x[0], x[1], x[2]); }
  vtkIdType GetNumberOfPoints() const { return v.size(); } int Allocate(vtkIdType, vtkIdType = 0) { return 1; } int Resize(vtkIdType) { return 1; } void Squeeze() {} double *GetPoint(vtkIdType i) { return v.at(i).data(); } void GetPoint(vtkIdType i, double *x) const { for (int k = 0; k < 3; ++k) x[k] = v.at(i)[k]; } void SetDataTypeToDouble() {} void SetDataTypeToFloat() {} void SetDataType(int) {} void Reset() { v.clear(); } void Initialize() { v.clear(); } };
class vtkIdList : public vtkObjectBase { public: VTK_NEW(vtkIdList) std::vector<vtkIdType> v; void SetNumberOfIds(vtkIdType n) { v.resize(n, -1); } vtkIdType GetNumberOfIds() const { return v.size(); } void SetId(vtkIdType i, vtkIdType x) { if (i < 0 || i >= (vtkIdType)v.size()) { standin::error("SetId outside the list"); return; } v[i] = x; } vtkIdType GetId(vtkIdType i) const { return v.at(i); } vtkIdType InsertNextId(vtkIdType x) { v.push_back(x); return v.size() - 1; } void InsertId(vtkIdType i, vtkIdType x) { if (i >= (vtkIdType)v.size()) v.resize(i + 1, -1); v[i] = x; } int Allocate(vtkIdType, int = 0) { return 1; } void Reset() { v.clear(); } void Initialize() { v.clear(); } vtkIdType *GetPointer(vtkIdType i) { return v.data() + i; } };
class vtkCellArray : public vtkObjectBase { public: VTK_NEW(vtkCellArray) std::vector<std::vector<vtkIdType>> v; vtkIdType InsertNextCell(int) { v.emplace_back(); return v.size() - 1; } void InsertCellPoint(vtkIdType i) { if (v.empty()) standin::error("InsertCellPoint without a cell"); else v.back().push_back(i); } void UpdateCellCount(int) {} vtkIdType InsertNextCell(vtkIdList *l) { v.push_back(l->v); return v.size() - 1; } vtkIdType InsertNextCell(std::initializer_list<vtkIdType> l) { v.emplace_back(l); return v.size() - 1; } int Allocate(vtkIdType, vtkIdType = 0) { return 1; } vtkIdType EstimateSize(vtkIdType n, int m) { return n * (m + 1); } void Squeeze() {} vtkIdType InsertNextCell(vtkIdType n, const vtkIdType *p) { v.emplace_back(p, p + n); return v.size() - 1; } vtkIdType GetNumberOfCells() const { return v.size(); } void Reset() { v.clear(); } void Initialize() { v.clear(); } };
class vtkAbstractArray : public vtkObjectBase { public: std::string name; int comps = 1; void SetName(const char *n) { name = n; } const char *GetName() const { return name.c_str(); } void SetNumberOfComponents(int n) { comps = n; } int GetNumberOfComponents() const { return comps; } virtual std::vector<double> values() const = 0; virtual vtkIdType GetNumberOfTuples() const { return comps ? values().size() / comps : 0; } virtual vtkIdType GetNumberOfValues() const { return values().size(); } void Squeeze() {} };
typedef vtkAbstractArray vtkDataArray;
template <class T> class vtkGenericDataArray_ : public vtkAbstractArray { public: std::vector<T> v; std::map<int, std::pair<T *, vtkIdType>> ext; vtkIdType tuples = -1;
  vtkIdType InsertNextValue(T x) { v.push_back(x); return v.size() - 1; } void SetNumberOfTuples(vtkIdType n) { tuples = n; v.resize(n * comps); } void SetNumberOfValues(vtkIdType n) { v.resize(n); } void SetValue(vtkIdType i, T x) { if (i < 0 || i >= (vtkIdType)v.size()) { standin::error("SetValue outside the array"); return; } v[i] = x; } void InsertValue(vtkIdType i, T x) { if (i >= (vtkIdType)v.size()) v.resize(i + 1); v[i] = x; } void Allocate(vtkIdType) {}
  vtkIdType InsertNextTuple(const double *x) { for (int c = 0; c < this->comps; ++c) v.push_back(T(x[c])); return v.size() / this->comps - 1; } vtkIdType InsertNextTuple(const float *x) { for (int c = 0; c < this->comps; ++c) v.push_back(T(x[c])); return v.size() / this->comps - 1; } vtkIdType InsertNextTypedTuple(const T *x) { for (int c = 0; c < this->comps; ++c) v.push_back(x[c]); return v.size() / this->comps - 1; } vtkIdType InsertNextTuple1(double a) { v.push_back(T(a)); return v.size() - 1; } vtkIdType InsertNextTuple3(double a, double b, double c) { double x[3] = {a, b, c}; return InsertNextTuple(x); } void SetTuple(vtkIdType t, const double *x) { for (int c = 0; c < this->comps; ++c) SetValue(t * this->comps + c, T(x[c])); } void SetTuple(vtkIdType t, const float *x) { for (int c = 0; c < this->comps; ++c) SetValue(t * this->comps + c, T(x[c])); } void SetTypedTuple(vtkIdType t, const T *x) { for (int c = 0; c < this->comps; ++c) SetValue(t * this->comps + c, x[c]); } void SetTuple1(vtkIdType t, double a) { SetValue(t, T(a)); } void SetTuple3(vtkIdType t, double a, double b, double c) { double x[3] = {a, b, c}; SetTuple(t, x); } void InsertComponent(vtkIdType t, int c, double x) { InsertValue(t * this->comps + c, T(x)); } void InsertTypedComponent(vtkIdType t, int c, T x) { InsertValue(t * this->comps + c, x); } T GetValue(vtkIdType i) const { return v.at(i); } int Resize(vtkIdType n) { return 1; } void FillValue(T x) { std::fill(v.begin(), v.end(), x); }
  void SetTypedComponent(vtkIdType t, int c, T x) { SetValue(t * this->comps + c, x); } void SetComponent(vtkIdType t, int c, double x) { SetValue(t * this->comps + c, x); } };
template <class T> class vtkSOADataArrayTemplate : public vtkGenericDataArray_<T> { public: VTK_NEW(vtkSOADataArrayTemplate) void SetArray(int c, T *p, vtkIdType n, bool updateMaxId = false, bool save = false, int = 0) { this->ext[c] = {p, n}; }
  std::vector<double> values() const override { if (this->ext.empty()) return {this->v.begin(), this->v.end()}; vtkIdType n = this->ext.begin()->second.second; std::vector<double> r; for (vtkIdType i = 0; i < n; ++i) for (int c = 0; c < this->comps; ++c) { auto k = this->ext.find(c); r.push_back(k == this->ext.end() || i >= k->second.second ? -1e30 : k->second.first[i]); } return r; } };
template <class T> class vtkAOSDataArrayTemplate : public vtkGenericDataArray_<T> { public: VTK_NEW(vtkAOSDataArrayTemplate) void SetArray(T *p, vtkIdType n, int save, int = 0) { this->ext[0] = {p, n}; }
  std::vector<double> values() const override { if (this->ext.empty()) return {this->v.begin(), this->v.end()}; auto &e = this->ext.begin()->second; return {e.first, e.first + e.second}; } };
struct vtkFloatArray : vtkAOSDataArrayTemplate<float> { VTK_NEW(vtkFloatArray) }; struct vtkDoubleArray : vtkAOSDataArrayTemplate<double> { VTK_NEW(vtkDoubleArray) }; struct vtkIntArray : vtkAOSDataArrayTemplate<int> { VTK_NEW(vtkIntArray) }; struct vtkLongArray : vtkAOSDataArrayTemplate<long> { VTK_NEW(vtkLongArray) }; struct vtkLongLongArray : vtkAOSDataArrayTemplate<long long> { VTK_NEW(vtkLongLongArray) };
class vtkFieldData : public vtkObjectBase { public: VTK_NEW(vtkFieldData) std::vector<vtkSmartPointer<vtkAbstractArray>> v; int AddArray(vtkAbstractArray *a) { for (size_t i = 0; i < v.size(); ++i) if (v[i]->name == a->name) { v[i] = a; return i; } v.push_back(a); return v.size() - 1; } int GetNumberOfArrays() const { return v.size(); } int SetScalars(vtkAbstractArray *a) { return AddArray(a); } int SetVectors(vtkAbstractArray *a) { return AddArray(a); } int SetTensors(vtkAbstractArray *a) { return AddArray(a); } vtkAbstractArray *GetAbstractArray(const char *n) { for (auto &a : v) if (a->name == n) return a; return nullptr; } vtkAbstractArray *GetArray(const char *n) { return GetAbstractArray(n); } vtkAbstractArray *GetArray(int i) { return i >= 0 && i < (int)v.size() ? v[i].GetPointer() : nullptr; } int HasArray(const char *n) { return GetAbstractArray(n) != nullptr; } void RemoveArray(const char *n) { for (size_t i = 0; i < v.size(); ++i) if (v[i]->name == n) { v.erase(v.begin() + i); return; } } void Initialize() { v.clear(); } };
typedef vtkFieldData vtkDataSetAttributes; typedef vtkFieldData vtkPointData; typedef vtkFieldData vtkCellData;
class vtkDataObject : public vtkObjectBase { vtkSmartPointer<vtkFieldData> fd = vtkSmartPointer<vtkFieldData>::New(); public: vtkFieldData *GetFieldData() { return fd; } void Modified() {} };
class vtkDataSet : public vtkDataObject { vtkSmartPointer<vtkFieldData> pd = vtkSmartPointer<vtkFieldData>::New(), cd = vtkSmartPointer<vtkFieldData>::New(); public: vtkPointData *GetPointData() { return pd; } vtkCellData *GetCellData() { return cd; } };
class vtkUnstructuredGrid : public vtkDataSet { public: VTK_NEW(vtkUnstructuredGrid) vtkSmartPointer<vtkPoints> pts; vtkSmartPointer<vtkCellArray> cells; int type = -1; struct Poly { int type; std::vector<vtkIdType> verts; std::vector<std::vector<vtkIdType>> faces; }; std::vector<Poly> poly;
  void SetPoints(vtkPoints *p) { pts = p; } vtkPoints *GetPoints() { return pts; } void SetCells(int t, vtkCellArray *c) { type = t; cells = c; } vtkIdType GetNumberOfPoints() { return pts ? pts->GetNumberOfPoints() : 0; } vtkIdType GetNumberOfCells() { return poly.size() + (cells ? cells->v.size() : 0); } void Allocate(vtkIdType = 0, int = 0) {}
  vtkCellArray *GetCells() { return cells; } void Initialize() { pts = nullptr; cells = nullptr; type = -1; poly.clear(); GetPointData()->Initialize(); GetCellData()->Initialize(); GetFieldData()->Initialize(); } void Reset() { Initialize(); } void Squeeze() {} vtkIdType InsertNextCell(int t, vtkIdList *l) { if (t == VTK_POLYHEDRON) { Poly p{t, {}, {}}; size_t i = 1; vtkIdType nf = l->v.at(0); for (vtkIdType f = 0; f < nf; ++f) { vtkIdType k = l->v.at(i++); p.faces.emplace_back(l->v.begin() + i, l->v.begin() + i + k); for (vtkIdType x : p.faces.back()) if (std::find(p.verts.begin(), p.verts.end(), x) == p.verts.end()) p.verts.push_back(x); i += k; } poly.push_back(p); return poly.size() - 1; } return InsertNextCell(t, l->v.size(), l->v.data()); }
  vtkIdType InsertNextCell(int t, vtkIdType n, const vtkIdType *ids) { poly.push_back({t, {ids, ids + n}, {}}); return poly.size() - 1; }
  vtkIdType InsertNextCell(int t, vtkIdType n, const vtkIdType *ids, vtkIdType nf, const vtkIdType *f) { Poly p{t, {ids, ids + n}, {}}; for (vtkIdType i = 0; i < nf; ++i) { vtkIdType k = *f++; p.faces.emplace_back(f, f + k); f += k; } poly.push_back(p); return poly.size() - 1; } };
// ---- writers, controllers, co-processing --------------------------------------------------
class vtkMultiProcessController : public vtkObjectBase { public: int inits = 0; void Initialize(int *, char ***, int = 0) { ++inits; } static vtkMultiProcessController *&global() { static vtkMultiProcessController *g = nullptr; return g; } static void SetGlobalController(vtkMultiProcessController *c) { if (c) c->Register(nullptr); if (global()) global()->UnRegister(nullptr); global() = c; } static vtkMultiProcessController *GetGlobalController() { return global(); } void Finalize() {} };
class vtkMPIController : public vtkMultiProcessController { public: VTK_NEW(vtkMPIController) };
struct Written { std::string file; bool parallel; int pieces, start, end; vtkDataObject *input; bool controller; };
namespace standin { inline std::vector<Written> &written() { static std::vector<Written> w; return w; } }
class vtkWriter_ : public vtkObjectBase { public: std::string file; vtkSmartPointer<vtkDataObject> in; int pieces = 1, start = 0, end = 0; bool par = false; vtkSmartPointer<vtkMultiProcessController> contr; void SetFileName(const char *f) { file = f; } void SetInputData(vtkDataObject *d) { in = d; } void SetInput(vtkDataObject *d) { in = d; } void SetInputDataObject(vtkDataObject *d) { in = d; } void SetDataModeToBinary() {} void SetDataModeToAscii() {} void SetDataModeToAppended() {} void SetFileTypeToBinary() {} void SetFileTypeToASCII() {} void SetCompressor(std::nullptr_t) {} void SetCompressorTypeToNone() {} void SetCompressorTypeToZLib() {} void EncodeAppendedDataOff() {} void EncodeAppendedDataOn() {} void SetEncodeAppendedData(int) {} void SetByteOrderToLittleEndian() {} void SetByteOrderToBigEndian() {} void SetDataMode(int) {} void SetFileType(int) {} int Update() { return Write(); } int Write() { standin::written().push_back({file, par, pieces, start, end, in.GetPointer(), contr.GetPointer() && contr->inits > 0}); return 1; } };
class vtkXMLUnstructuredGridWriter : public vtkWriter_ { public: VTK_NEW(vtkXMLUnstructuredGridWriter) };
class vtkUnstructuredGridWriter : public vtkWriter_ { public: VTK_NEW(vtkUnstructuredGridWriter) };
class vtkXMLPUnstructuredGridWriter : public vtkWriter_ { public: vtkXMLPUnstructuredGridWriter() { par = true; } VTK_NEW(vtkXMLPUnstructuredGridWriter) void SetNumberOfPieces(int n) { pieces = n; } void SetStartPiece(int n) { start = n; } void SetEndPiece(int n) { end = n; } void SetController(vtkMultiProcessController *c) { contr = c; } };
class vtkCPInputDataDescription : public vtkObjectBase { public: VTK_NEW(vtkCPInputDataDescription) vtkSmartPointer<vtkDataObject> grid; void SetGrid(vtkDataObject *g) { grid = g; } vtkDataObject *GetGrid() { return grid; } void AllFieldsOn() {} void GenerateMeshOn() {} };
class vtkCPDataDescription : public vtkObjectBase { public: VTK_NEW(vtkCPDataDescription) std::map<std::string, vtkSmartPointer<vtkCPInputDataDescription>> in; double time = -1; long step = -1; bool force = false; void AddInput(const char *n) { if (!in.count(n)) in[n] = vtkSmartPointer<vtkCPInputDataDescription>::New(); } void SetTimeData(double t, vtkIdType s) { time = t; step = s; } void ForceOutputOn() { force = true; } void ForceOutputOff() { force = false; } void SetForceOutput(bool b) { force = b; } int GetNumberOfInputDescriptions() { return in.size(); } double GetTime() { return time; } vtkIdType GetTimeStep() { return step; } bool GetForceOutput() { return force; } vtkCPInputDataDescription *GetInputDescription(unsigned i) { auto k = in.begin(); std::advance(k, i); return k == in.end() ? nullptr : k->second.GetPointer(); } vtkCPInputDataDescription *GetInputDescriptionByName(const char *n) { return in.count(n) ? in[n].GetPointer() : nullptr; } };
class vtkCPPythonScriptPipeline : public vtkObjectBase { public: VTK_NEW(vtkCPPythonScriptPipeline) std::string script; int Initialize(const char *s) { script = s; return 1; } };
struct CoProcessed { vtkDataObject *grid; double time; long step; bool force; int inputs; };
class vtkCPProcessor : public vtkObjectBase { public: VTK_NEW(vtkCPProcessor) bool init = false; std::vector<vtkSmartPointer<vtkCPPythonScriptPipeline>> pipes; static int &every() { static int n = 1; return n; } static std::vector<CoProcessed> &done() { static std::vector<CoProcessed> d; return d; } static std::vector<CoProcessed> &asked() { static std::vector<CoProcessed> d; return d; } static std::vector<vtkCPProcessor *> &living() { static std::vector<vtkCPProcessor *> v; return v; }
  vtkCPProcessor() { living().push_back(this); } ~vtkCPProcessor() override { auto &l = living(); l.erase(std::find(l.begin(), l.end(), this)); } int Initialize() { init = true; return 1; } int AddPipeline(vtkCPPythonScriptPipeline *p) { if (!init) standin::error("pipeline added before initialisation"); pipes.push_back(p); return 1; } int Finalize() { pipes.clear(); return 1; } void RemoveAllPipelines() { pipes.clear(); } int GetNumberOfPipelines() { return pipes.size(); }
  int RequestDataDescription(vtkCPDataDescription *d) { asked().push_back({nullptr, d->time, d->step, d->force, (int)d->in.size()}); if (!d->in.count("input")) { standin::error("no input named"); return 0; } return d->force || (every() && d->step % every() == 0); } int CoProcess(vtkCPDataDescription *d) { done().push_back({d->in.count("input") ? d->in["input"]->grid.GetPointer() : nullptr, d->time, d->step, d->force, (int)d->in.size()}); return 1; } };
