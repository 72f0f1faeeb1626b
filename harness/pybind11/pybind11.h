// A stand-in for pybind11, which is not installed here: the part of its
// interface that src/python/core uses, with the semantics that pybind11
// documents (overloads tried without then with conversions, return value
// policies, holders, None, keyword arguments, arrays shared or copied, ...).
// It lets the bindings be compiled and observed; it shares no code with pybind11.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <Eigen/Core>
#include <algorithm>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t = std::size_t;

enum class return_value_policy : uint8_t { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };

template <bool B, typename T = void> using enable_if_t_ = typename std::enable_if<B, T>::type;

class error_already_set : public std::runtime_error {
 public:
  error_already_set() : std::runtime_error("Python error") {
    PyObject *t, *v, *b;
    PyErr_Fetch(&t, &v, &b);
    state_ = std::shared_ptr<State>(new State{t, v, b});
  }
  void restore() { PyErr_Restore(state_->t, state_->v, state_->b); state_->t = state_->v = state_->b = nullptr; }

 private:
  struct State {
    PyObject *t, *v, *b;
    ~State() { if (t || v || b) { auto g = PyGILState_Ensure(); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); PyGILState_Release(g); } }
  };
  std::shared_ptr<State> state_;
};
#define VF_PY_EXCEPTION(name) class name : public std::runtime_error { public: using std::runtime_error::runtime_error; name() : std::runtime_error(#name) {} };
VF_PY_EXCEPTION(cast_error)
VF_PY_EXCEPTION(reference_cast_error)
VF_PY_EXCEPTION(stop_iteration)
VF_PY_EXCEPTION(index_error)
VF_PY_EXCEPTION(key_error)
VF_PY_EXCEPTION(value_error)
VF_PY_EXCEPTION(type_error)
VF_PY_EXCEPTION(attribute_error)
VF_PY_EXCEPTION(import_error)
#undef VF_PY_EXCEPTION
[[noreturn]] inline void pybind11_fail(const std::string& s) { throw std::runtime_error(s); }

// ---------------------------------------------------------------- handles
class object;
class accessor;
class handle {
 public:
  handle() = default;
  handle(PyObject* p) : p_(p) {}
  PyObject* ptr() const { return p_; }
  const handle& inc_ref() const { Py_XINCREF(p_); return *this; }
  const handle& dec_ref() const { Py_XDECREF(p_); return *this; }
  explicit operator bool() const { return p_ != nullptr; }
  bool is_none() const { return p_ == Py_None; }
  bool is(handle o) const { return p_ == o.p_; }
  inline accessor attr(const char* name) const;
  inline object get_type() const;
  template <typename T> T cast() const;
  template <typename... A> object operator()(A&&... a) const;
  inline bool equal(handle o) const { int r = PyObject_RichCompareBool(p_, o.p_, Py_EQ); if (r < 0) throw error_already_set(); return r == 1; }

 protected:
  PyObject* p_ = nullptr;
};

struct borrowed_t {};
struct stolen_t {};
class object : public handle {
 public:
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept { p_ = o.p_; o.p_ = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) { object t(o); std::swap(p_, t.p_); return *this; }
  object& operator=(object&& o) noexcept { std::swap(p_, o.p_); return *this; }
  handle release() { handle r(p_); p_ = nullptr; return r; }
};
template <typename T> T reinterpret_borrow(handle h) { return T(h, borrowed_t{}); }
template <typename T> T reinterpret_steal(handle h) { return T(h, stolen_t{}); }
inline object steal_checked(PyObject* p) { if (!p) throw error_already_set(); return object(p, stolen_t{}); }

class accessor {
 public:
  accessor(handle o, std::string n) : obj_(reinterpret_borrow<object>(o)), name_(std::move(n)) {}
  object get() const { return steal_checked(PyObject_GetAttrString(obj_.ptr(), name_.c_str())); }
  operator object() const { return get(); }
  PyObject* ptr() const { cache_ = get(); return cache_.ptr(); }
  accessor attr(const char* n) const { return accessor(get(), n); }
  template <typename T> T cast() const { return get().template cast<T>(); }
  template <typename... A> object operator()(A&&... a) const { return get()(std::forward<A>(a)...); }
  template <typename T> void operator=(T&& v);

 private:
  object obj_;
  std::string name_;
  mutable object cache_;
};
accessor handle::attr(const char* n) const { return accessor(*this, n); }
object handle::get_type() const { return reinterpret_borrow<object>(reinterpret_cast<PyObject*>(Py_TYPE(p_))); }

#define VF_PY_OBJECT(name, parent) \
  name(handle h, borrowed_t) : parent(h, borrowed_t{}) {} \
  name(handle h, stolen_t) : parent(h, stolen_t{}) {} \
  name(const object& o) : parent(o) {}

class none : public object { public: none() : object(Py_None, borrowed_t{}) {} };
class str : public object {
 public:
  str(handle h, borrowed_t) : object(h, borrowed_t{}) {}
  str(handle h, stolen_t) : object(h, stolen_t{}) {}
  str(const char* s = "") : object(PyUnicode_FromString(s), stolen_t{}) {}
  str(const std::string& s) : object(PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr), stolen_t{}) {}
  explicit str(handle h) : object(steal_checked(PyObject_Str(h.ptr()))) {}
  explicit str(const accessor& a) : object(steal_checked(PyObject_Str(object(a).ptr()))) {}
  operator std::string() const {
    ssize_t n = 0;
    const char* s = PyUnicode_AsUTF8AndSize(p_, &n);
    if (!s) throw error_already_set();
    return std::string(s, static_cast<size_t>(n));
  }
  static bool check(handle h) { return PyUnicode_Check(h.ptr()); }
};
class bytes : public object {
 public:
  VF_PY_OBJECT(bytes, object)
  bytes() : object(PyBytes_FromString(""), stolen_t{}) {}
  bytes(const char* s) : object(PyBytes_FromString(s), stolen_t{}) {}
  bytes(const char* s, size_t n) : object(PyBytes_FromStringAndSize(s, static_cast<ssize_t>(n)), stolen_t{}) {}
  bytes(const std::string& s) : object(PyBytes_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())), stolen_t{}) {}
  operator std::string() const { char* b; ssize_t n; if (PyBytes_AsStringAndSize(p_, &b, &n)) throw error_already_set(); return std::string(b, static_cast<size_t>(n)); }
  static bool check(handle h) { return PyBytes_Check(h.ptr()); }
};
class tuple : public object {
 public:
  VF_PY_OBJECT(tuple, object)
  explicit tuple(size_t n = 0) : object(PyTuple_New(static_cast<ssize_t>(n)), stolen_t{}) {}
  size_t size() const { return static_cast<size_t>(PyTuple_GET_SIZE(p_)); }
  object operator[](size_t i) const { auto* o = PyTuple_GetItem(p_, static_cast<ssize_t>(i)); if (!o) throw error_already_set(); return reinterpret_borrow<object>(o); }
  static bool check(handle h) { return PyTuple_Check(h.ptr()); }
};
class list : public object {
 public:
  VF_PY_OBJECT(list, object)
  explicit list(size_t n = 0) : object(PyList_New(static_cast<ssize_t>(n)), stolen_t{}) {}
  size_t size() const { return static_cast<size_t>(PyList_GET_SIZE(p_)); }
  template <typename T> void append(T&& v) const;
  object operator[](size_t i) const { auto* o = PyList_GetItem(p_, static_cast<ssize_t>(i)); if (!o) throw error_already_set(); return reinterpret_borrow<object>(o); }
  static bool check(handle h) { return PyList_Check(h.ptr()); }
};
class dict : public object {
 public:
  VF_PY_OBJECT(dict, object)
  dict() : object(PyDict_New(), stolen_t{}) {}
  size_t size() const { return static_cast<size_t>(PyDict_Size(p_)); }
  static bool check(handle h) { return PyDict_Check(h.ptr()); }
};
class iterator : public object { public: VF_PY_OBJECT(iterator, object) static bool check(handle h) { return PyIter_Check(h.ptr()); } };
class sequence : public object { public: VF_PY_OBJECT(sequence, object) static bool check(handle h) { return PySequence_Check(h.ptr()); } };
class function : public object { public: VF_PY_OBJECT(function, object) static bool check(handle h) { return PyCallable_Check(h.ptr()); } };
class int_ : public object { public: VF_PY_OBJECT(int_, object) int_(long long v = 0) : object(PyLong_FromLongLong(v), stolen_t{}) {} static bool check(handle h) { return PyLong_Check(h.ptr()); } };
class float_ : public object { public: VF_PY_OBJECT(float_, object) float_(double v = 0) : object(PyFloat_FromDouble(v), stolen_t{}) {} static bool check(handle h) { return PyFloat_Check(h.ptr()); } };

// ---------------------------------------------------------------- numpy
namespace detail {
struct PyArray_Proxy { PyObject_HEAD char* data; int nd; ssize_t* dimensions; ssize_t* strides; PyObject* base; PyObject* descr; int flags; };
struct PyArrayDescr_Proxy { PyObject_HEAD PyObject* typeobj; char kind; char type; char byteorder; char flags; int type_num; };
inline PyArray_Proxy* array_proxy(PyObject* p) { return reinterpret_cast<PyArray_Proxy*>(p); }
inline const PyArrayDescr_Proxy* array_descriptor_proxy(const PyObject* p) { return reinterpret_cast<const PyArrayDescr_Proxy*>(p); }

inline PyObject* numpy(const char* name) {
  static auto& cache = *new std::map<std::string, PyObject*>();
  auto& r = cache[name];
  if (!r) {
    object m = steal_checked(PyImport_ImportModule("numpy"));
    r = PyObject_GetAttrString(m.ptr(), name);
    if (!r) throw error_already_set();
  }
  return r;
}
inline bool is_array(handle h) { return h && PyObject_IsInstance(h.ptr(), numpy("ndarray")) == 1; }

template <typename T> struct scalar_name;
#define VF_PY_SCALAR(T, n) template <> struct scalar_name<T> { static const char* get() { return n; } };
VF_PY_SCALAR(double, "float64") VF_PY_SCALAR(float, "float32") VF_PY_SCALAR(std::complex<double>, "complex128") VF_PY_SCALAR(std::complex<float>, "complex64")
VF_PY_SCALAR(int8_t, "int8") VF_PY_SCALAR(uint8_t, "uint8") VF_PY_SCALAR(int16_t, "int16") VF_PY_SCALAR(uint16_t, "uint16") VF_PY_SCALAR(int32_t, "int32")
VF_PY_SCALAR(uint32_t, "uint32") VF_PY_SCALAR(int64_t, "int64") VF_PY_SCALAR(uint64_t, "uint64") VF_PY_SCALAR(bool, "bool")
#undef VF_PY_SCALAR
template <typename T, bool = std::is_enum<T>::value> struct dtype_name : scalar_name<T> {};
template <typename T> struct dtype_name<T, true> : scalar_name<typename std::underlying_type<T>::type> {};
inline object make_dtype(const char* name) {
  object n = steal_checked(PyUnicode_FromString(name));
  return steal_checked(PyObject_CallFunctionObjArgs(numpy("dtype"), n.ptr(), nullptr));
}
// numpy.array(src, dtype=..., order=...), which converts anything that numpy can convert.
inline object ensure(handle src, const char* dtype, const char* order) {
  object dt = make_dtype(dtype);
  object kw = reinterpret_steal<object>(PyDict_New());
  object o = steal_checked(PyUnicode_FromString(order)), no = reinterpret_borrow<object>(Py_False);
  PyDict_SetItemString(kw.ptr(), "order", o.ptr());
  // As PyArray_FromAny with NPY_ARRAY_FORCECAST: values are cast whatever they are.
  object any = is_array(src) ? reinterpret_borrow<object>(src) : object();
  if (!any.ptr()) {
    object a = steal_checked(PyTuple_Pack(1, src.ptr()));
    object r = reinterpret_steal<object>(PyObject_Call(numpy("array"), a.ptr(), nullptr));
    if (!r.ptr()) { PyErr_Clear(); return object(); }
    any = r;
  }
  if (array_descriptor_proxy(array_proxy(any.ptr())->descr)->kind == 'O') {
    // Objects are converted one by one, by numpy.
  }
  object f = reinterpret_steal<object>(PyObject_GetAttrString(any.ptr(), "astype"));
  object a = steal_checked(PyTuple_Pack(1, dt.ptr()));
  object r = reinterpret_steal<object>(PyObject_Call(f.ptr(), a.ptr(), kw.ptr()));
  if (!r.ptr()) PyErr_Clear();
  return r;
}
inline bool same_dtype(handle array, const char* name) {
  object dt = make_dtype(name);
  return PyObject_RichCompareBool(array_proxy(array.ptr())->descr, dt.ptr(), Py_EQ) == 1;
}
}  // namespace detail

class dtype : public object {
 public:
  VF_PY_OBJECT(dtype, object)
  char kind() const { return detail::array_descriptor_proxy(p_)->kind; }
  int num() const { return detail::array_descriptor_proxy(p_)->type_num; }
  static bool check(handle h) { return PyObject_IsInstance(h.ptr(), detail::numpy("dtype")) == 1; }
  template <typename T> static dtype of() { return reinterpret_borrow<dtype>(detail::make_dtype(detail::dtype_name<T>::get())); }
};

template <typename T, ssize_t Dims> class unchecked_reference {
 public:
  explicit unchecked_reference(PyObject* a) : a_(detail::array_proxy(a)) {}
  template <typename... I> const T& operator()(I... i) const {
    static_assert(sizeof...(I) == Dims, "number of indices");
    const ssize_t index[] = {static_cast<ssize_t>(i)...};
    const char* p = a_->data;
    for (ssize_t d = 0; d < Dims; ++d) p += index[d] * a_->strides[d];
    return *reinterpret_cast<const T*>(p);
  }
  const T& operator[](ssize_t i) const { return (*this)(i); }
  ssize_t shape(ssize_t d) const { return a_->dimensions[d]; }
  ssize_t ndim() const { return Dims; }
  ssize_t size() const { ssize_t n = 1; for (ssize_t d = 0; d < Dims; ++d) n *= a_->dimensions[d]; return n; }

 private:
  detail::PyArray_Proxy* a_;
};

class array : public object {
 public:
  VF_PY_OBJECT(array, object)
  array() = default;
  pybind11::dtype dtype() const { return reinterpret_borrow<pybind11::dtype>(detail::array_proxy(p_)->descr); }
  ssize_t ndim() const { return detail::array_proxy(p_)->nd; }
  ssize_t size() const { ssize_t n = 1; for (ssize_t d = 0; d < ndim(); ++d) n *= shape(d); return n; }
  ssize_t shape(ssize_t d) const { if (d >= ndim()) throw index_error("invalid axis"); return detail::array_proxy(p_)->dimensions[d]; }
  ssize_t strides(ssize_t d) const { if (d >= ndim()) throw index_error("invalid axis"); return detail::array_proxy(p_)->strides[d]; }
  const void* data() const { return detail::array_proxy(p_)->data; }
  template <typename T, ssize_t Dims> unchecked_reference<T, Dims> unchecked() const {
    if (ndim() != Dims) throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(Dims));
    return unchecked_reference<T, Dims>(p_);
  }
  static bool check(handle h) { return detail::is_array(h); }
};

template <typename T> bool isinstance(handle h) { return T::check(h); }
template <> inline bool isinstance<object>(handle h) { return static_cast<bool>(h); }
template <> inline bool isinstance<handle>(handle h) { return static_cast<bool>(h); }

// ---------------------------------------------------------------- GIL
class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;
 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
 private:
  PyGILState_STATE s_;
};

// ---------------------------------------------------------------- instances
namespace detail {
struct type_info {
  PyTypeObject* type = nullptr;
  std::type_index cpp{typeid(void)};
  std::type_index base_cpp{typeid(void)};
  void* (*upcast)(void*) = nullptr;                        // to the base
  std::shared_ptr<void> (*own)(void*) = nullptr;           // holder of a new pointer
  void* (*copy)(const void*) = nullptr;
  void* (*move)(void*) = nullptr;
};
struct instance {
  PyObject_HEAD void* value;
  std::shared_ptr<void>* holder;   // null for a reference
  type_info* info;
  std::vector<PyObject*>* patients;
  PyObject* weakrefs;
};
struct internals {
  std::unordered_map<std::type_index, type_info*> cpp;
  std::unordered_map<PyTypeObject*, type_info*> py;
  std::unordered_multimap<const void*, instance*> live;
};
inline internals& get_internals() { static auto* i = new internals(); return *i; }  // outlives the interpreter
inline type_info* find_type(std::type_index t) { auto& m = get_internals().cpp; auto i = m.find(t); return i == m.end() ? nullptr : i->second; }
inline type_info* type_of(PyTypeObject* t) {
  auto& m = get_internals().py;
  for (; t; t = t->tp_base) { auto i = m.find(t); if (i != m.end()) return i->second; }
  return nullptr;
}
inline void bind_instance(instance* self, type_info* info, void* value, std::shared_ptr<void>* holder) {
  self->value = value; self->holder = holder; self->info = info;
  get_internals().live.emplace(value, self);
}
inline void unbind(instance* self) {
  if (self->value) {
    auto r = get_internals().live.equal_range(self->value);
    for (auto i = r.first; i != r.second; ++i) if (i->second == self) { get_internals().live.erase(i); break; }
  }
  delete self->holder;
  self->holder = nullptr; self->value = nullptr;
}
inline void add_patient(PyObject* nurse, PyObject* patient) {
  if (!nurse || !patient || nurse == Py_None || patient == Py_None) return;
  auto* i = reinterpret_cast<instance*>(nurse);
  if (!type_of(Py_TYPE(nurse))) pybind11_fail("keep_alive: not an instance of a bound class");
  if (!i->patients) i->patients = new std::vector<PyObject*>();
  Py_INCREF(patient);
  i->patients->push_back(patient);
}
inline PyObject* instance_new(PyTypeObject* type, PyObject*, PyObject*) {
  auto* self = reinterpret_cast<instance*>(type->tp_alloc(type, 0));
  if (self) { self->value = nullptr; self->holder = nullptr; self->info = nullptr; self->patients = nullptr; self->weakrefs = nullptr; }
  return reinterpret_cast<PyObject*>(self);
}
inline void instance_dealloc(PyObject* p) {
  auto* self = reinterpret_cast<instance*>(p);
  auto* type = Py_TYPE(p);
  if (self->weakrefs) PyObject_ClearWeakRefs(p);
  unbind(self);
  if (self->patients) { auto v = std::move(*self->patients); delete self->patients; self->patients = nullptr; for (auto* o : v) Py_DECREF(o); }
  type->tp_free(p);
  Py_DECREF(type);
}
inline PyObject* make_instance(type_info* info) {
  return instance_new(info->type, nullptr, nullptr);
}
// The instance of a pointer already known, of the same type.
inline PyObject* known_instance(const void* p, type_info* info) {
  auto r = get_internals().live.equal_range(p);
  for (auto i = r.first; i != r.second; ++i)
    if (i->second->info == info) { auto* o = reinterpret_cast<PyObject*>(i->second); Py_INCREF(o); return o; }
  return nullptr;
}
inline handle cast_pointer(const void* src, type_info* info, const char* name, return_value_policy policy, handle parent) {
  if (!info) { PyErr_SetString(PyExc_TypeError, (std::string("Unregistered type : ") + name).c_str()); return handle(); }
  if (!src) { Py_INCREF(Py_None); return Py_None; }
  if (auto* o = known_instance(src, info)) return o;
  auto* o = make_instance(info);
  auto* self = reinterpret_cast<instance*>(o);
  auto* p = const_cast<void*>(src);
  switch (policy) {
    case return_value_policy::automatic:
    case return_value_policy::take_ownership:
      bind_instance(self, info, p, new std::shared_ptr<void>(info->own(p)));
      break;
    case return_value_policy::automatic_reference:
    case return_value_policy::reference:
      bind_instance(self, info, p, nullptr);
      break;
    case return_value_policy::copy:
    case return_value_policy::move: {
      void* q = nullptr;
      if (policy == return_value_policy::move && info->move) q = info->move(p);
      else if (info->copy) q = info->copy(p);
      else { Py_DECREF(o); throw cast_error(std::string("return_value_policy = copy, but type is non-copyable: ") + name); }
      bind_instance(self, info, q, new std::shared_ptr<void>(info->own(q)));
      break;
    }
    case return_value_policy::reference_internal:
      bind_instance(self, info, p, nullptr);
      add_patient(o, parent.ptr());
      break;
  }
  return o;
}

// ---------------------------------------------------------------- casters
template <typename T> struct intrinsic { using type = T; };
template <typename T> struct intrinsic<const T> : intrinsic<T> {};
template <typename T> struct intrinsic<T*> : intrinsic<T> {};
template <typename T> struct intrinsic<T* const> : intrinsic<T> {};
template <typename T> struct intrinsic<T&> : intrinsic<T> {};
template <typename T> struct intrinsic<T&&> : intrinsic<T> {};
template <typename T, size_t N> struct intrinsic<T[N]> { using type = T; };
template <typename T, size_t N> struct intrinsic<const T[N]> { using type = T; };
template <typename T> using intrinsic_t = typename intrinsic<T>::type;
template <typename T> using remove_cvref_t = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

template <typename T> using cast_op_t = typename std::conditional<std::is_pointer<typename std::remove_reference<T>::type>::value, typename std::add_pointer<intrinsic_t<T>>::type,
                                                                  typename std::add_lvalue_reference<intrinsic_t<T>>::type>::type;
template <typename T> using movable_cast_op_t = typename std::conditional<
    std::is_pointer<typename std::remove_reference<T>::type>::value, typename std::add_pointer<intrinsic_t<T>>::type,
    typename std::conditional<std::is_rvalue_reference<T>::value, typename std::add_rvalue_reference<intrinsic_t<T>>::type, typename std::add_lvalue_reference<intrinsic_t<T>>::type>::type>::type;

class type_caster_generic {
 public:
  bool load_generic(handle src, bool convert, std::type_index want) {
    if (!src) return false;
    if (src.is_none()) { if (!convert) return false; value = nullptr; return true; }
    auto* info = type_of(Py_TYPE(src.ptr()));
    if (!info) return false;
    auto* inst = reinterpret_cast<instance*>(src.ptr());
    if (!inst->value) return false;
    void* p = inst->value;
    for (info = inst->info; info->cpp != want; info = find_type(info->base_cpp)) {
      if (!info->upcast) return false;
      p = info->upcast(p);
      if (!find_type(info->base_cpp)) return false;
    }
    value = p;
    owner = inst->holder;
    return true;
  }
  void* value = nullptr;
  std::shared_ptr<void>* owner = nullptr;
};
template <typename T> class type_caster_base : public type_caster_generic {
  using itype = intrinsic_t<T>;

 public:
  bool load(handle src, bool convert) { return load_generic(src, convert, typeid(itype)); }
  static handle cast(const itype& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference) policy = return_value_policy::copy;
    return cast(std::addressof(src), policy, parent);
  }
  static handle cast(itype&& src, return_value_policy, handle parent) { return cast(std::addressof(src), return_value_policy::move, parent); }
  static handle cast(const itype* src, return_value_policy policy, handle parent) { return cast_pointer(src, find_type(typeid(itype)), typeid(itype).name(), policy, parent); }
  template <typename U> using cast_op_type = cast_op_t<U>;
  operator itype*() { return static_cast<itype*>(value); }
  operator itype&() { if (!value) throw reference_cast_error(); return *static_cast<itype*>(value); }
};
template <typename type, typename SFINAE = void> class type_caster : public type_caster_base<type> {};
template <typename T> using make_caster = type_caster<intrinsic_t<T>>;

template <typename T> typename make_caster<T>::template cast_op_type<T> cast_op(make_caster<T>& c) { return c.operator typename make_caster<T>::template cast_op_type<T>(); }
template <typename T> typename make_caster<T>::template cast_op_type<typename std::add_rvalue_reference<T>::type> cast_op(make_caster<T>&& c) {
  return std::move(c).operator typename make_caster<T>::template cast_op_type<typename std::add_rvalue_reference<T>::type>();
}

// Casters which hold a value.
template <typename T> struct value_caster {
  T value{};
  template <typename U> using cast_op_type = movable_cast_op_t<U>;
  operator T*() { return &value; }
  operator T&() { return value; }
  operator T&&() && { return std::move(value); }
};
#define PYBIND11_TYPE_CASTER(type, py_name) \
 protected: \
  type value; \
 public: \
  template <typename U> using cast_op_type = ::pybind11::detail::movable_cast_op_t<U>; \
  operator type*() { return &value; } \
  operator type&() { return value; } \
  operator type&&() && { return std::move(value); }

template <typename T> struct type_caster<T, enable_if_t_<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> : value_caster<T> {
  bool load(handle src, bool convert) { return load_(src, convert, std::is_floating_point<T>()); }
  static handle cast(T v, return_value_policy, handle) { return cast_(v, std::is_floating_point<T>()); }

 private:
  static handle cast_(T v, std::true_type) { return PyFloat_FromDouble(static_cast<double>(v)); }
  static handle cast_(T v, std::false_type) { return std::is_signed<T>::value ? PyLong_FromLongLong(static_cast<long long>(v)) : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v)); }
  bool load_(handle src, bool convert, std::true_type) {
    if (!src) return false;
    if (!convert && !PyFloat_Check(src.ptr())) return false;
    double v = PyFloat_AsDouble(src.ptr());
    if (v == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(src.ptr())) {
        object f = reinterpret_steal<object>(PyNumber_Float(src.ptr()));
        PyErr_Clear();
        return load_(f, false, std::true_type());
      }
      return false;
    }
    this->value = static_cast<T>(v);
    return true;
  }
  bool load_(handle src, bool convert, std::false_type) {
    if (!src || PyFloat_Check(src.ptr())) return false;
    if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr())) return false;
    object i = reinterpret_steal<object>(PyNumber_Index(src.ptr()));
    if (!i.ptr()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(src.ptr())) {
        object n = reinterpret_steal<object>(PyNumber_Long(src.ptr()));
        PyErr_Clear();
        return load_(n, false, std::false_type());
      }
      return false;
    }
    if (std::is_signed<T>::value) {
      long long v = PyLong_AsLongLong(i.ptr());
      if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); return false; }
      if (static_cast<long long>(static_cast<T>(v)) != v) return false;
      this->value = static_cast<T>(v);
    } else {
      unsigned long long v = PyLong_AsUnsignedLongLong(i.ptr());
      if (v == static_cast<unsigned long long>(-1) && PyErr_Occurred()) { PyErr_Clear(); return false; }
      if (static_cast<unsigned long long>(static_cast<T>(v)) != v) return false;
      this->value = static_cast<T>(v);
    }
    return true;
  }
};
template <> struct type_caster<bool> : value_caster<bool> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True) { value = true; return true; }
    if (src.ptr() == Py_False) { value = false; return true; }
    if (convert || std::string(Py_TYPE(src.ptr())->tp_name) == "numpy.bool" || std::string(Py_TYPE(src.ptr())->tp_name) == "numpy.bool_") {
      if (src.is_none()) { value = false; return true; }
      auto* nb = Py_TYPE(src.ptr())->tp_as_number;
      if (nb && nb->nb_bool) {
        int r = nb->nb_bool(src.ptr());
        if (r == 0 || r == 1) { value = r == 1; return true; }
        PyErr_Clear();
      }
    }
    return false;
  }
  static handle cast(bool v, return_value_policy, handle) { return PyBool_FromLong(v); }
};
template <> struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (!s) { PyErr_Clear(); return false; }
      value.assign(s, static_cast<size_t>(n));
      return true;
    }
    if (PyBytes_Check(src.ptr())) { value.assign(PyBytes_AS_STRING(src.ptr()), static_cast<size_t>(PyBytes_GET_SIZE(src.ptr()))); return true; }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    auto* r = PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr);
    if (!r) throw error_already_set();
    return r;
  }
};
template <> struct type_caster<char> {   // const char*
  std::string value;
  bool null = false;
  bool load(handle src, bool convert) {
    if (src.is_none()) { null = true; return convert; }
    type_caster<std::string> c;
    if (!c.load(src, convert)) return false;
    value = static_cast<std::string&>(c);
    return true;
  }
  static handle cast(const char* s, return_value_policy, handle) { if (!s) { Py_INCREF(Py_None); return Py_None; } return type_caster<std::string>::cast(s, return_value_policy::copy, handle()); }
  static handle cast(char c, return_value_policy, handle) { return PyUnicode_FromStringAndSize(&c, 1); }
  template <typename U> using cast_op_type = const char*;
  operator const char*() { return null ? nullptr : value.c_str(); }
};
template <typename T> struct type_caster<std::complex<T>> : value_caster<std::complex<T>> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (!convert && !PyComplex_Check(src.ptr())) return false;
    auto v = PyComplex_AsCComplex(src.ptr());
    if (v.real == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
    this->value = std::complex<T>(static_cast<T>(v.real), static_cast<T>(v.imag));
    return true;
  }
  static handle cast(const std::complex<T>& c, return_value_policy, handle) { return PyComplex_FromDoubles(static_cast<double>(c.real()), static_cast<double>(c.imag())); }
};
template <typename T> struct void_caster {
  bool load(handle src, bool) { return src && src.is_none(); }
  static handle cast(T, return_value_policy, handle) { Py_INCREF(Py_None); return Py_None; }
  template <typename U> using cast_op_type = T;
  operator T() { return T{}; }
};
template <> struct type_caster<std::nullptr_t> : void_caster<std::nullptr_t> {};
template <typename T> struct type_caster<T, enable_if_t_<std::is_base_of<handle, T>::value>> : value_caster<T> {
  bool load(handle src, bool) { if (!src || !isinstance<T>(src)) return false; set(src, std::is_same<T, handle>()); return true; }
  static handle cast(const handle& src, return_value_policy, handle) { return src.inc_ref(); }

 private:
  void set(handle src, std::true_type) { this->value = src; }
  void set(handle src, std::false_type) { this->value = reinterpret_borrow<T>(src); }
};

// How values returned are cast.
template <typename Return, typename = void> struct policy_override { static return_value_policy policy(return_value_policy p) { return p; } };
template <typename T> struct is_shared : std::false_type {};
template <typename T> struct is_shared<std::shared_ptr<T>> : std::true_type {};
template <typename Return> struct policy_override<Return, enable_if_t_<std::is_base_of<type_caster_generic, make_caster<Return>>::value && !is_shared<Return>::value>> {
  static return_value_policy policy(return_value_policy p) {
    return !std::is_lvalue_reference<Return>::value && !std::is_pointer<Return>::value ? return_value_policy::move : p;
  }
};
template <typename T, typename U> using forwarded_type = typename std::conditional<std::is_lvalue_reference<T>::value, typename std::remove_reference<U>::type&, typename std::remove_reference<U>::type&&>::type;
template <typename T, typename U> forwarded_type<T, U> forward_like(U&& u) { return std::forward<forwarded_type<T, U>>(std::forward<U>(u)); }

template <typename L, typename V> struct list_caster : value_caster<L> {
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) || PyBytes_Check(src.ptr())) return false;
    object fast = reinterpret_steal<object>(PySequence_Fast(src.ptr(), "a sequence"));
    if (!fast.ptr()) { PyErr_Clear(); return false; }
    this->value.clear();
    for (ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fast.ptr()); ++i) {
      make_caster<V> c;
      if (!c.load(PySequence_Fast_GET_ITEM(fast.ptr(), i), convert)) return false;
      this->value.push_back(cast_op<V&&>(std::move(c)));
    }
    return true;
  }
  template <typename T> static handle cast(T&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference<T>::value) policy = policy_override<V>::policy(policy);
    object r = reinterpret_steal<object>(PyList_New(static_cast<ssize_t>(src.size())));
    ssize_t i = 0;
    for (auto&& v : src) {
      handle h = make_caster<V>::cast(forward_like<T>(v), policy, parent);
      if (!h) return handle();
      PyList_SET_ITEM(r.ptr(), i++, h.ptr());
    }
    return r.release();
  }
};
template <typename T, typename A> struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};
template <typename T, typename C, typename A> struct type_caster<std::set<T, C, A>> : value_caster<std::set<T, C, A>> {
  bool load(handle src, bool convert) {
    object it = reinterpret_steal<object>(PyAnySet_Check(src.ptr()) ? PyObject_GetIter(src.ptr()) : nullptr);
    if (!it.ptr()) return false;
    this->value.clear();
    while (true) {
      object o = reinterpret_steal<object>(PyIter_Next(it.ptr()));
      if (!o.ptr()) return true;
      make_caster<T> c;
      if (!c.load(o, convert)) return false;
      this->value.insert(cast_op<T&&>(std::move(c)));
    }
  }
  template <typename U> static handle cast(U&& src, return_value_policy policy, handle parent) {
    object r = reinterpret_steal<object>(PySet_New(nullptr));
    for (auto&& v : src) { object o = reinterpret_steal<object>(make_caster<T>::cast(forward_like<U>(v), policy, parent)); if (!o.ptr() || PySet_Add(r.ptr(), o.ptr())) return handle(); }
    return r.release();
  }
};
template <typename M, typename K, typename V> struct map_caster : value_caster<M> {
  bool load(handle src, bool convert) {
    if (!src || !PyDict_Check(src.ptr())) return false;
    this->value.clear();
    PyObject *k, *v; ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<K> kc; make_caster<V> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert)) return false;
      this->value.emplace(cast_op<K&&>(std::move(kc)), cast_op<V&&>(std::move(vc)));
    }
    return true;
  }
  template <typename T> static handle cast(T&& src, return_value_policy policy, handle parent) {
    object r = reinterpret_steal<object>(PyDict_New());
    auto kp = policy, vp = policy;
    if (!std::is_lvalue_reference<T>::value) { kp = policy_override<K>::policy(kp); vp = policy_override<V>::policy(vp); }
    for (auto&& kv : src) {
      object k = reinterpret_steal<object>(make_caster<K>::cast(forward_like<T>(kv.first), kp, parent));
      object v = reinterpret_steal<object>(make_caster<V>::cast(forward_like<T>(kv.second), vp, parent));
      if (!k.ptr() || !v.ptr() || PyDict_SetItem(r.ptr(), k.ptr(), v.ptr())) return handle();
    }
    return r.release();
  }
};
template <typename K, typename V, typename C, typename A> struct type_caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A> struct type_caster<std::unordered_map<K, V, H, E, A>> : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <typename Tuple, typename... Ts> struct tuple_caster {
  std::tuple<make_caster<Ts>...> sub;
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != static_cast<ssize_t>(sizeof...(Ts))) return false;
    return load_(src, convert, std::index_sequence_for<Ts...>());
  }
  template <typename T> static handle cast(T&& src, return_value_policy policy, handle parent) { return cast_(std::forward<T>(src), policy, parent, std::index_sequence_for<Ts...>()); }
  template <typename U> using cast_op_type = Tuple;
  operator Tuple() { return get_(std::index_sequence_for<Ts...>()); }

 private:
  template <size_t... I> bool load_(handle src, bool convert, std::index_sequence<I...>) {
    bool ok[] = {true, std::get<I>(sub).load(reinterpret_steal<object>(PySequence_GetItem(src.ptr(), I)), convert)...};
    return std::all_of(std::begin(ok), std::end(ok), [](bool b) { return b; });
  }
  template <size_t... I> Tuple get_(std::index_sequence<I...>) { return Tuple(cast_op<Ts>(std::move(std::get<I>(sub)))...); }
  template <typename T, size_t... I> static handle cast_(T&& src, return_value_policy policy, handle parent, std::index_sequence<I...>) {
    object items[] = {object(), reinterpret_steal<object>(make_caster<Ts>::cast(std::get<I>(std::forward<T>(src)), policy_override<Ts>::policy(policy), parent))...};
    object r = reinterpret_steal<object>(PyTuple_New(sizeof...(Ts)));
    for (size_t i = 0; i < sizeof...(Ts); ++i) {
      if (!items[i + 1].ptr()) return handle();
      PyTuple_SET_ITEM(r.ptr(), static_cast<ssize_t>(i), items[i + 1].release().ptr());
    }
    return r.release();
  }
};
template <typename... Ts> struct type_caster<std::tuple<Ts...>> : tuple_caster<std::tuple<Ts...>, Ts...> {};
template <typename A, typename B> struct type_caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};

template <typename Type, typename Value = typename Type::value_type> struct optional_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) return true;
    make_caster<Value> c;
    if (!c.load(src, convert)) return false;
    this->value = Type(static_cast<Value>(cast_op<Value&&>(std::move(c))));
    return true;
  }
  template <typename T> static handle cast(T&& src, return_value_policy policy, handle parent) {
    if (!src) { Py_INCREF(Py_None); return Py_None; }
    if (!std::is_lvalue_reference<T>::value) policy = policy_override<Value>::policy(policy);
    return make_caster<Value>::cast(*std::forward<T>(src), policy, parent);
  }
};

template <typename T> struct type_caster<std::shared_ptr<T>> : type_caster_generic {
  std::shared_ptr<T> holder;
  bool load(handle src, bool convert) {
    if (!load_generic(src, convert, typeid(typename std::remove_const<T>::type))) return false;
    if (value && !owner) throw cast_error("Unable to cast from non-held to held instance");
    holder = value ? std::shared_ptr<T>(*owner, static_cast<T*>(value)) : std::shared_ptr<T>();
    return true;
  }
  static handle cast(const std::shared_ptr<T>& src, return_value_policy, handle) {
    using U = typename std::remove_const<T>::type;
    if (!src) { Py_INCREF(Py_None); return Py_None; }
    auto* info = find_type(typeid(U));
    if (!info) { PyErr_SetString(PyExc_TypeError, "Unregistered type"); return handle(); }
    auto p = std::const_pointer_cast<U>(src);
    if (auto* o = known_instance(p.get(), info)) return o;
    auto* o = make_instance(info);
    bind_instance(reinterpret_cast<instance*>(o), info, p.get(), new std::shared_ptr<void>(p));
    return o;
  }
  template <typename U> using cast_op_type = std::shared_ptr<T>&;
  operator std::shared_ptr<T>&() { return holder; }
};
template <typename T> struct policy_override<std::shared_ptr<T>> { static return_value_policy policy(return_value_policy) { return return_value_policy::take_ownership; } };

// ---------------------------------------------------------------- Eigen
template <typename T> struct is_plain {
  template <typename D> static std::true_type test(const Eigen::PlainObjectBase<D>*);
  static std::false_type test(...);
  static constexpr bool value = decltype(test(static_cast<T*>(nullptr)))::value;
};
struct fit { bool ok = false; Eigen::Index rows = 0, cols = 0, inner = 0, outer = 0; bool negative = false; };
template <typename M, typename StrideType = Eigen::Stride<0, 0>> struct eigen_props {
  using Scalar = typename M::Scalar;
  static constexpr Eigen::Index rows = M::RowsAtCompileTime, cols = M::ColsAtCompileTime;
  static constexpr bool row_major = M::IsRowMajor, vector = M::IsVectorAtCompileTime;
  static constexpr Eigen::Index inner_stride = StrideType::InnerStrideAtCompileTime == 0 ? 1 : StrideType::InnerStrideAtCompileTime;
  static constexpr Eigen::Index outer_stride = StrideType::OuterStrideAtCompileTime == 0 ? (vector ? M::SizeAtCompileTime : row_major ? cols : rows) : StrideType::OuterStrideAtCompileTime;
  static fit make(Eigen::Index r, Eigen::Index c, Eigen::Index rs, Eigen::Index cs) {
    fit f;
    f.ok = true; f.rows = r; f.cols = c; f.negative = rs < 0 || cs < 0;
    if (!f.negative) { f.inner = row_major ? cs : rs; f.outer = row_major ? rs : cs; }
    return f;
  }
  static fit conformable(handle h) {
    auto* a = array_proxy(h.ptr());
    const auto item = static_cast<ssize_t>(sizeof(Scalar));
    if (a->nd < 1 || a->nd > 2) return fit();
    if (a->nd == 2) {
      const auto r = a->dimensions[0], c = a->dimensions[1];
      if ((rows != Eigen::Dynamic && r != rows) || (cols != Eigen::Dynamic && c != cols)) return fit();
      return make(r, c, a->strides[0] / item, a->strides[1] / item);
    }
    const auto n = a->dimensions[0], s = a->strides[0] / item;
    if (vector) {
      if (M::SizeAtCompileTime != Eigen::Dynamic && M::SizeAtCompileTime != n) return fit();
      fit f = rows == 1 ? make(1, n, s, s) : make(n, 1, s, s);
      if (!f.negative) { f.inner = s; f.outer = s * n; }
      return f;
    }
    if (rows != Eigen::Dynamic && cols != Eigen::Dynamic) return fit();
    if (cols != Eigen::Dynamic) { if (cols != n) return fit(); fit f = make(1, n, s, s); f.inner = s; f.outer = s; return f; }
    if (rows != Eigen::Dynamic && rows != n) return fit();
    fit f = make(n, 1, s, s);
    f.inner = s; f.outer = s * n;
    return f;
  }
  static bool stride_compatible(const fit& f) {
    return !f.negative && (inner_stride == Eigen::Dynamic || inner_stride == f.inner || (row_major ? f.cols : f.rows) == 1) &&
           (outer_stride == Eigen::Dynamic || outer_stride == f.outer || vector || (row_major ? f.rows : f.cols) == 1);
  }
};
template <typename M> handle eigen_to_array(const M& m) {
  using S = typename M::Scalar;
  object dt = make_dtype(dtype_name<S>::get());
  object shape = M::IsVectorAtCompileTime ? steal_checked(Py_BuildValue("(n)", static_cast<ssize_t>(m.size())))
                                          : steal_checked(Py_BuildValue("(nn)", static_cast<ssize_t>(m.rows()), static_cast<ssize_t>(m.cols())));
  object a = steal_checked(Py_BuildValue("(OOs)", shape.ptr(), dt.ptr(), M::IsRowMajor || M::IsVectorAtCompileTime ? "C" : "F"));
  object r = steal_checked(PyObject_Call(numpy("empty"), a.ptr(), nullptr));
  auto* p = reinterpret_cast<S*>(array_proxy(r.ptr())->data);
  Eigen::Map<Eigen::Matrix<S, M::RowsAtCompileTime, M::ColsAtCompileTime, M::IsRowMajor ? Eigen::RowMajor : Eigen::ColMajor>>(p, m.rows(), m.cols()) = m;
  return r.release();
}
template <typename M> struct type_caster<M, enable_if_t_<is_plain<M>::value>> : value_caster<M> {
  using P = eigen_props<M>;
  using S = typename M::Scalar;
  bool load(handle src, bool convert) {
    const char* name = dtype_name<S>::get();
    if (!convert && !(is_array(src) && same_dtype(src, name))) return false;
    object any = is_array(src) ? reinterpret_borrow<object>(src) : object();
    if (!any.ptr()) {
      object a = steal_checked(PyTuple_Pack(1, src.ptr()));
      any = reinterpret_steal<object>(PyObject_Call(numpy("array"), a.ptr(), nullptr));
      if (!any.ptr()) { PyErr_Clear(); return false; }
    }
    auto* a = array_proxy(any.ptr());
    if (a->nd < 1 || a->nd > 2) return false;
    fit f = P::conformable(any);
    if (!f.ok) return false;
    object copy = ensure(any, name, "F");
    if (!copy.ptr()) return false;
    auto* c = array_proxy(copy.ptr());
    const auto* data = reinterpret_cast<const S*>(c->data);
    this->value.resize(f.rows, f.cols);
    for (Eigen::Index j = 0; j < f.cols; ++j)
      for (Eigen::Index i = 0; i < f.rows; ++i) this->value(i, j) = data[j * f.rows + i];
    return true;
  }
  static handle cast(const M& m, return_value_policy, handle) { return eigen_to_array(m); }
  static handle cast(const M* m, return_value_policy policy, handle) {
    if (!m) { Py_INCREF(Py_None); return Py_None; }
    std::unique_ptr<const M> own(policy == return_value_policy::automatic || policy == return_value_policy::take_ownership ? m : nullptr);
    return eigen_to_array(*m);
  }
};
template <typename M, int O, typename StrideType> struct type_caster<Eigen::Ref<const M, O, StrideType>> {
  using Type = Eigen::Ref<const M, O, StrideType>;
  using P = eigen_props<M, StrideType>;
  using S = typename M::Scalar;
  using DynMap = Eigen::Map<const M, 0, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>>;
  bool load(handle src, bool convert) {
    const char* name = dtype_name<S>::get();
    bool copy = !(is_array(src) && same_dtype(src, name));
    fit f;
    if (!copy) {
      f = P::conformable(src);
      if (!f.ok) return false;
      if (!P::stride_compatible(f)) copy = true;
      else held_ = reinterpret_borrow<object>(src);
    }
    if (copy) {
      if (!convert) return false;
      held_ = ensure(src, name, P::row_major ? "C" : "F");
      if (!held_.ptr()) return false;
      f = P::conformable(held_);
      if (!f.ok || !P::stride_compatible(f)) return false;
    }
    make(f, std::integral_constant<bool, StrideType::InnerStrideAtCompileTime == Eigen::Dynamic>());
    return true;
  }
  static handle cast(const Type& r, return_value_policy, handle) { return eigen_to_array(M(r)); }
  template <typename U> using cast_op_type = cast_op_t<U>;
  operator Type*() { return ref_.get(); }
  operator Type&() { return *ref_; }

 private:
  const S* data() const { return reinterpret_cast<const S*>(array_proxy(held_.ptr())->data); }
  void make(const fit& f, std::true_type) {
    map_.reset(new DynMap(data(), f.rows, f.cols, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(f.outer, f.inner)));
    ref_.reset(new Type(*map_));
  }
  void make(const fit& f, std::false_type) {
    Eigen::Map<const M, 0, StrideType> m(data(), f.rows, f.cols, stride(f, static_cast<StrideType*>(nullptr)));
    ref_.reset(new Type(m));
  }
  template <int V> static Eigen::InnerStride<V> stride(const fit&, Eigen::InnerStride<V>*) { return Eigen::InnerStride<V>(); }
  template <int V> static Eigen::OuterStride<V> stride(const fit& f, Eigen::OuterStride<V>*) { return Eigen::OuterStride<V>(f.outer); }
  template <int A, int B> static Eigen::Stride<A, B> stride(const fit& f, Eigen::Stride<A, B>*) { return Eigen::Stride<A, B>(A == Eigen::Dynamic ? f.outer : A, B == Eigen::Dynamic ? f.inner : B); }
  object held_;
  std::unique_ptr<DynMap> map_;
  std::unique_ptr<Type> ref_;
};
}  // namespace detail

template <typename T> object cast(T&& v, return_value_policy policy = return_value_policy::automatic_reference, handle parent = handle()) {
  using C = detail::make_caster<T>;
  handle h = C::cast(std::forward<T>(v), detail::policy_override<T>::policy(policy), parent);
  if (!h) { if (PyErr_Occurred()) throw error_already_set(); throw cast_error("Unable to convert call argument to Python object"); }
  return reinterpret_steal<object>(h);
}
template <typename T> T cast(handle h) {
  detail::make_caster<T> c;
  if (!c.load(h, true)) throw cast_error("Unable to cast Python instance to C++ type");
  return detail::cast_op<T>(c);
}
template <typename T> T handle::cast() const { return pybind11::cast<T>(*this); }
template <> inline object handle::cast<object>() const { return reinterpret_borrow<object>(*this); }
template <typename... A> object handle::operator()(A&&... a) const {
  object items[] = {object(), pybind11::cast(std::forward<A>(a))...};
  object t = reinterpret_steal<object>(PyTuple_New(sizeof...(A)));
  for (size_t i = 0; i < sizeof...(A); ++i) PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), items[i + 1].release().ptr());
  return steal_checked(PyObject_Call(p_, t.ptr(), nullptr));
}
template <typename T> void accessor::operator=(T&& v) { object o = pybind11::cast(std::forward<T>(v)); if (PyObject_SetAttrString(obj_.ptr(), name_.c_str(), o.ptr())) throw error_already_set(); }
template <typename T> void list::append(T&& v) const { object o = pybind11::cast(std::forward<T>(v)); PyList_Append(p_, o.ptr()); }
template <typename... A> tuple make_tuple(A&&... a) {
  object items[] = {object(), pybind11::cast(std::forward<A>(a))...};
  tuple t(sizeof...(A));
  for (size_t i = 0; i < sizeof...(A); ++i) PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), items[i + 1].release().ptr());
  return t;
}

// ---------------------------------------------------------------- functions
struct arg_v;
struct arg {
  explicit arg(const char* n) : name(n) {}
  template <typename T> arg_v operator=(T&& v) const;
  arg& noconvert(bool f = true) { no_convert = f; return *this; }
  arg& none(bool f = true) { allow_none = f; return *this; }
  const char* name;
  bool no_convert = false, allow_none = true;
};
struct arg_v : arg {
  template <typename T> arg_v(const arg& a, T&& v, const char* d = nullptr) : arg(a), value(pybind11::cast(std::forward<T>(v), return_value_policy::automatic)) { (void)d; }
  arg_v& noconvert(bool f = true) { no_convert = f; return *this; }
  arg_v& none(bool f = true) { allow_none = f; return *this; }
  object value;
};
template <typename T> arg_v arg::operator=(T&& v) const { return arg_v(*this, std::forward<T>(v)); }
inline namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }

template <typename... G> struct call_guard;
template <> struct call_guard<> { struct type {}; };
template <typename T> struct call_guard<T> { using type = T; };
template <typename T, typename... G> struct call_guard<T, G...> { struct type { T a; typename call_guard<G...>::type b; }; };
template <size_t Nurse, size_t Patient> struct keep_alive {};
struct doc { explicit doc(const char* v) : value(v) {} const char* value; };
struct kw_only {};
struct pos_only {};
struct dynamic_attr {};
struct buffer_protocol {};
struct module_local { explicit module_local(bool = true) {} };
struct prepend {};
struct arithmetic {};
struct is_final {};
struct multiple_inheritance {};
template <typename T> struct base {};
struct name { explicit name(const char* v) : value(v) {} const char* value; };
struct is_method { explicit is_method(handle c) : cls(c) {} handle cls; };
struct scope { explicit scope(handle s) : value(s) {} handle value; };
struct sibling { explicit sibling(handle s) : value(s) {} handle value; };

namespace detail {
struct call {
  std::vector<handle> args;
  std::vector<bool> convert;
  handle parent;
  object init_self;
};
struct function_record {
  struct argument { std::string name; object value; bool convert = true, none = true; };
  std::string name, doc;
  std::function<handle(call&)> impl;   // null handle: try the next overload
  std::vector<argument> args;
  size_t nargs = 0, kw_only_from = static_cast<size_t>(-1);
  bool method = false, prepend = false;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<size_t, size_t>> keep;
  std::unique_ptr<function_record> next;
  PyMethodDef def{};
};
inline handle try_next() { return handle(reinterpret_cast<PyObject*>(1)); }

inline void translate_exception() {
  try { throw; }
  catch (error_already_set& e) { e.restore(); }
  catch (const stop_iteration& e) { PyErr_SetString(PyExc_StopIteration, e.what()); }
  catch (const index_error& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const key_error& e) { PyErr_SetString(PyExc_KeyError, e.what()); }
  catch (const value_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const type_error& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
  catch (const attribute_error& e) { PyErr_SetString(PyExc_AttributeError, e.what()); }
  catch (const import_error& e) { PyErr_SetString(PyExc_ImportError, e.what()); }
  catch (const std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (const std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::overflow_error& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

inline PyObject* dispatch(PyObject* capsule, PyObject* args_in, PyObject* kwargs_in) {
  auto* first = static_cast<function_record*>(PyCapsule_GetPointer(capsule, "vf_record"));
  const auto n_in = static_cast<size_t>(PyTuple_GET_SIZE(args_in));
  const bool overloaded = first->next != nullptr;
  PyObject* result = reinterpret_cast<PyObject*>(1);
  try {
    for (int pass = overloaded ? 0 : 1; pass < 2; ++pass) {
      for (auto* f = first; f; f = f->next.get()) {
        call c;
        if (n_in > f->nargs) continue;
        bool bad = false;
        std::vector<object> owned;
        size_t used = 0;
        for (size_t i = 0; i < f->nargs && !bad; ++i) {
          handle v;
          const auto* a = i < f->args.size() ? &f->args[i] : nullptr;
          if (i < n_in) {
            v = PyTuple_GET_ITEM(args_in, static_cast<ssize_t>(i));
            if (i >= f->kw_only_from) bad = true;
            if (a && !a->name.empty() && kwargs_in && PyDict_GetItemString(kwargs_in, a->name.c_str())) bad = true;
          } else if (a) {
            if (kwargs_in && !a->name.empty()) { v = PyDict_GetItemString(kwargs_in, a->name.c_str()); if (v) ++used; }
            if (!v) v = a->value;
          }
          if (!v) { bad = true; break; }
          if (a && !a->none && v.is_none()) { bad = true; break; }
          c.args.push_back(v);
          c.convert.push_back(pass == 1 && (!a || a->convert));
        }
        if (bad || (kwargs_in && static_cast<size_t>(PyDict_Size(kwargs_in)) > used)) continue;
        if (n_in) c.parent = PyTuple_GET_ITEM(args_in, 0);
        try {
          handle r = f->impl(c);
          if (r.ptr() == try_next().ptr()) continue;
          result = r.ptr();
          if (result)
            for (auto& k : f->keep) {
              auto get = [&](size_t i) -> PyObject* { return i == 0 ? result : i <= c.args.size() ? c.args[i - 1].ptr() : nullptr; };
              add_patient(get(k.first), get(k.second));
            }
        } catch (reference_cast_error&) { continue; }
        if (!result && !PyErr_Occurred()) PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!");
        return result;
      }
    }
  } catch (...) {
    translate_exception();
    return nullptr;
  }
  if (first->name == "__eq__" || first->name == "__ne__") { Py_INCREF(Py_NotImplemented); return Py_NotImplemented; }
  PyErr_SetString(PyExc_TypeError, (first->name + "(): incompatible function arguments.").c_str());
  return nullptr;
}

template <typename T> struct signature;
template <typename R, typename... A> struct signature<R(A...)> { using ret = R; };
template <typename F> struct callable_of;
template <typename C, typename R, typename... A> struct callable_of<R (C::*)(A...)> { using type = R(A...); };
template <typename C, typename R, typename... A> struct callable_of<R (C::*)(A...) const> { using type = R(A...); };

template <typename Guard, typename... A> struct invoker {
  std::tuple<make_caster<A>...> casters;
  template <size_t... I> bool load(call& c, std::index_sequence<I...>) {
    bool ok[] = {true, std::get<I>(casters).load(c.args[I], c.convert[I])...};
    return std::all_of(std::begin(ok), std::end(ok), [](bool b) { return b; });
  }
  template <typename R, typename F, size_t... I> R run(F& f, std::index_sequence<I...>) {
    typename Guard::type guard;
    (void)guard;
    return f(cast_op<A>(std::move(std::get<I>(casters)))...);
  }
};
template <typename R> struct returner {
  template <typename Inv, typename F, typename Seq> static handle go(Inv& i, F& f, Seq s, return_value_policy policy, handle parent) {
    return make_caster<R>::cast(i.template run<R>(f, s), policy_override<R>::policy(policy), parent);
  }
};
template <> struct returner<void> {
  template <typename Inv, typename F, typename Seq> static handle go(Inv& i, F& f, Seq s, return_value_policy, handle) {
    i.template run<void>(f, s);
    Py_INCREF(Py_None);
    return Py_None;
  }
};
template <typename T> struct find_guard_one { using type = void; };
template <typename... G> struct find_guard_one<call_guard<G...>> { using type = call_guard<G...>; };
template <typename... E> struct find_guard { using type = call_guard<>; };
template <typename T, typename... E> struct find_guard<T, E...> {
  using one = typename find_guard_one<remove_cvref_t<T>>::type;
  using type = typename std::conditional<std::is_void<one>::value, typename find_guard<E...>::type, one>::type;
};

inline void apply(function_record& r, const char* d) { r.doc = d; }
inline void apply(function_record& r, const doc& d) { r.doc = d.value; }
inline void apply(function_record& r, const name& n) { r.name = n.value; }
inline void apply(function_record& r, const arg& a) {
  if (r.method && r.args.empty()) r.args.push_back({});
  function_record::argument x; x.name = a.name; x.convert = !a.no_convert; x.none = a.allow_none;
  r.args.push_back(x);
}
inline void apply(function_record& r, const arg_v& a) { apply(r, static_cast<const arg&>(a)); r.args.back().value = a.value; }
inline void apply(function_record& r, return_value_policy p) { r.policy = p; }
inline void apply(function_record& r, const is_method&) { r.method = true; }
inline void apply(function_record&, const scope&) {}
inline void apply(function_record&, const sibling&) {}
inline void apply(function_record& r, const prepend&) { r.prepend = true; }
inline void apply(function_record& r, const kw_only&) { if (r.method && r.args.empty()) r.args.push_back({}); r.kw_only_from = r.args.size(); }
inline void apply(function_record&, const pos_only&) {}
template <typename... G> void apply(function_record&, const call_guard<G...>&) {}
template <size_t N, size_t P> void apply(function_record& r, const keep_alive<N, P>&) { r.keep.emplace_back(N, P); }
}  // namespace detail

class cpp_function : public function {
 public:
  cpp_function() : function(object()) {}
  template <typename R, typename... A, typename... E> cpp_function(R (*f)(A...), const E&... e) : function(object()) { init(f, static_cast<R (*)(A...)>(nullptr), e...); }
  template <typename R, typename C, typename... A, typename... E> cpp_function(R (C::*f)(A...), const E&... e) : function(object()) {
    init([f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, static_cast<R (*)(C*, A...)>(nullptr), e...);
  }
  template <typename R, typename C, typename... A, typename... E> cpp_function(R (C::*f)(A...) const, const E&... e) : function(object()) {
    init([f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, static_cast<R (*)(const C*, A...)>(nullptr), e...);
  }
  template <typename F, typename... E, typename = enable_if_t_<std::is_class<detail::remove_cvref_t<F>>::value && !std::is_base_of<handle, detail::remove_cvref_t<F>>::value>>
  cpp_function(F&& f, const E&... e) : function(object()) {
    init(std::forward<F>(f), static_cast<typename detail::callable_of<decltype(&detail::remove_cvref_t<F>::operator())>::type*>(nullptr), e...);
  }
  template <typename... E> static void configure(detail::function_record& r, const E&... e) { int u[] = {0, (detail::apply(r, e), 0)...}; (void)u; }
  detail::function_record* record() const { return rec_; }
  explicit cpp_function(std::unique_ptr<detail::function_record> r) : function(object()) { finish(std::move(r)); }

 private:
  template <typename F, typename R, typename... A, typename... E> void init(F&& f, R (*)(A...), const E&... e) {
    std::unique_ptr<detail::function_record> r(new detail::function_record());
    r->nargs = sizeof...(A);
    configure(*r, e...);
    auto* rec = r.get();
    using Guard = typename detail::find_guard<E...>::type;
    auto g = std::make_shared<detail::remove_cvref_t<F>>(std::forward<F>(f));
    rec->impl = [rec, g](detail::call& c) -> handle {
      detail::invoker<Guard, A...> i;
      std::index_sequence_for<A...> seq;
      if (!i.load(c, seq)) return detail::try_next();
      return detail::returner<R>::go(i, *g, seq, rec->policy, c.parent);
    };
    finish(std::move(r));
  }
  void finish(std::unique_ptr<detail::function_record> r) { rec_ = r.get(); owned_.reset(r.release()); }

 public:
  // The Python function; it takes the record.
  object make(const std::string& name, handle module_name) {
    auto* r = owned_.get();
    if (!r) return *this;
    r->name = name;
    r->def.ml_name = r->name.c_str();
    r->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(detail::dispatch));
    r->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    r->def.ml_doc = r->doc.c_str();
    object cap = steal_checked(PyCapsule_New(r, "vf_record", [](PyObject* o) { delete static_cast<detail::function_record*>(PyCapsule_GetPointer(o, "vf_record")); }));
    auto* raw = owned_.release();
    object fn = steal_checked(PyCFunction_NewEx(&raw->def, cap.ptr(), module_name.ptr()));
    if (raw->method) fn = steal_checked(PyInstanceMethod_New(fn.ptr()));
    static_cast<object&>(*this) = fn;
    return fn;
  }
  // The record behind a Python function made here.
  static detail::function_record* record_of(handle f) {
    if (!f) return nullptr;
    PyObject* p = f.ptr();
    if (PyInstanceMethod_Check(p)) p = PyInstanceMethod_GET_FUNCTION(p);
    if (!PyCFunction_Check(p)) return nullptr;
    PyObject* self = PyCFunction_GET_SELF(p);
    return self && PyCapsule_IsValid(self, "vf_record") ? static_cast<detail::function_record*>(PyCapsule_GetPointer(self, "vf_record")) : nullptr;
  }
  std::unique_ptr<detail::function_record> take() { return std::move(owned_); }

 private:
  detail::function_record* rec_ = nullptr;
  std::unique_ptr<detail::function_record> owned_;
};

namespace detail {
// Adds a function to a module or a class, after its overloads.
inline void add_function(handle where, const std::string& n, cpp_function& f, handle existing, bool is_static) {
  auto* chain = cpp_function::record_of(existing);
  if (!chain && existing && PyObject_IsInstance(existing.ptr(), reinterpret_cast<PyObject*>(&PyStaticMethod_Type)) == 1) {
    object inner = reinterpret_steal<object>(PyObject_GetAttrString(existing.ptr(), "__func__"));
    chain = cpp_function::record_of(inner);
  }
  if (chain) {
    auto r = f.take();
    if (!r) return;
    r->name = n;
    while (chain->next) chain = chain->next.get();
    chain->next = std::move(r);
    return;
  }
  object mod = reinterpret_steal<object>(PyObject_GetAttrString(where.ptr(), PyModule_Check(where.ptr()) ? "__name__" : "__module__"));
  if (!mod.ptr()) PyErr_Clear();
  object fn = f.make(n, mod);
  if (is_static) fn = steal_checked(PyStaticMethod_New(fn.ptr()));
  if (PyObject_SetAttrString(where.ptr(), n.c_str(), fn.ptr())) throw error_already_set();
}
inline object own_attribute(handle where, const std::string& n) {
  object d = reinterpret_steal<object>(PyObject_GetAttrString(where.ptr(), "__dict__"));
  if (!d.ptr()) { PyErr_Clear(); return object(); }
  object k = str(n);
  object v = reinterpret_steal<object>(PyObject_GetItem(d.ptr(), k.ptr()));
  if (!v.ptr()) PyErr_Clear();
  return v;
}
}  // namespace detail

class module_ : public object {
 public:
  VF_PY_OBJECT(module_, object)
  module_() = default;
  template <typename F, typename... E> module_& def(const char* n, F&& f, const E&... e) {
    cpp_function c(std::forward<F>(f), e...);
    detail::add_function(*this, n, c, detail::own_attribute(*this, n), false);
    return *this;
  }
  module_ def_submodule(const char* n, const char* d = nullptr) {
    const char* mine = PyModule_GetName(p_);
    if (!mine) throw error_already_set();
    auto* s = PyImport_AddModule((std::string(mine) + "." + n).c_str());
    if (!s) throw error_already_set();
    auto r = reinterpret_borrow<module_>(s);
    if (d) { object o = str(d); PyObject_SetAttrString(s, "__doc__", o.ptr()); }
    if (PyObject_SetAttrString(p_, n, s)) throw error_already_set();
    return r;
  }
  static module_ import(const char* n) { return reinterpret_borrow<module_>(steal_checked(PyImport_ImportModule(n))); }
  static bool check(handle h) { return PyModule_Check(h.ptr()); }
};
using module = module_;

// ---------------------------------------------------------------- classes
namespace detail {
template <typename T> enable_if_t_<std::is_copy_constructible<T>::value, void*> copy_of(const void* p, int) { return new T(*static_cast<const T*>(p)); }
template <typename T> void* (*copier(std::true_type))(const void*) { return [](const void* p) -> void* { return new T(*static_cast<const T*>(p)); }; }
template <typename T> void* (*copier(std::false_type))(const void*) { return nullptr; }
template <typename T> void* (*mover(std::true_type))(void*) { return [](void* p) -> void* { return new T(std::move(*static_cast<T*>(p))); }; }
template <typename T> void* (*mover(std::false_type))(void*) { return nullptr; }
template <typename T> struct usable_copy : std::integral_constant<bool, std::is_copy_constructible<T>::value && !std::is_abstract<T>::value> {};
template <typename T> struct usable_move : std::integral_constant<bool, std::is_move_constructible<T>::value && !std::is_abstract<T>::value> {};
struct void_t_ { using type = void; };
template <typename T, typename... O> struct base_of { using type = void_t_; };
template <typename T, typename X, typename... O> struct base_of<T, X, O...> {
  using type = typename std::conditional<std::is_base_of<X, T>::value && !std::is_same<X, T>::value, X, typename base_of<T, O...>::type>::type;
};
inline void finish_class(type_info* info, handle where, const char* n, const char* d, PyTypeObject* base) {
  object mod = reinterpret_steal<object>(PyObject_GetAttrString(where.ptr(), PyModule_Check(where.ptr()) ? "__name__" : "__module__"));
  if (!mod.ptr()) PyErr_Clear();
  const auto* full = new std::string(mod.ptr() ? std::string(str(handle(mod))) + "." + n : std::string(n));
  static PyMemberDef members[] = {{"__weaklistoffset__", Py_T_PYSSIZET, offsetof(instance, weakrefs), Py_READONLY, nullptr}, {nullptr, 0, 0, 0, nullptr}};
  PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void*>(instance_new)}, {Py_tp_dealloc, reinterpret_cast<void*>(instance_dealloc)}, {Py_tp_members, members},
                         {Py_tp_doc, const_cast<char*>(d ? d : "")}, {0, nullptr}};
  PyType_Spec spec = {full->c_str(), sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
  object bases = base ? steal_checked(PyTuple_Pack(1, base)) : object();
  object type = steal_checked(PyType_FromSpecWithBases(&spec, bases.ptr()));
  if (!PyModule_Check(where.ptr())) {
    object q = reinterpret_steal<object>(PyObject_GetAttrString(where.ptr(), "__qualname__"));
    object qn = str(std::string(str(handle(q))) + "." + n);
    PyObject_SetAttrString(type.ptr(), "__qualname__", qn.ptr());
  }
  info->type = reinterpret_cast<PyTypeObject*>(type.ptr());
  if (get_internals().cpp.count(info->cpp)) pybind11_fail(std::string("generic_type: type \"") + n + "\" is already registered!");
  get_internals().cpp[info->cpp] = info;
  get_internals().py[info->type] = info;
  if (PyObject_HasAttrString(where.ptr(), n) && own_attribute(where, n).ptr()) pybind11_fail(std::string("cannot initialize type \"") + n + "\": an object with that name is already defined");
  if (PyObject_SetAttrString(where.ptr(), n, type.ptr())) throw error_already_set();
  type.release();   // types live as long as the process
}
template <typename... A> struct init_ctor {};
template <typename F> struct init_factory { F f; };
template <typename G, typename S> struct pickle_pair { G get; S set; };
template <typename T> void* from_factory(T&& v, type_info*, std::shared_ptr<void>*&) { return new remove_cvref_t<T>(std::forward<T>(v)); }
template <typename T> void* from_factory(T* v, type_info*, std::shared_ptr<void>*&) { return v; }
template <typename T> void* from_factory(std::shared_ptr<T> v, type_info*, std::shared_ptr<void>*& h) { h = new std::shared_ptr<void>(v); return v.get(); }
template <typename T> void* from_factory(std::unique_ptr<T> v, type_info*, std::shared_ptr<void>*&) { return v.release(); }
// The self of a constructor: the instance, which has no value yet.
struct value_and_holder { instance* self = nullptr; type_info* info = nullptr; };
template <> struct type_caster<value_and_holder> : value_caster<value_and_holder> {
  bool load(handle src, bool) {
    auto* info = src ? type_of(Py_TYPE(src.ptr())) : nullptr;
    if (!info) return false;
    value.self = reinterpret_cast<instance*>(src.ptr());
    value.info = info;
    return true;
  }
};
inline void construct(const value_and_holder& v, void* p, std::shared_ptr<void>* h) {
  if (!p) throw type_error("pybind11::init(): factory function returned nullptr");
  std::shared_ptr<void>* holder = h ? h : new std::shared_ptr<void>(v.info->own(p));
  unbind(v.self);
  bind_instance(v.self, v.info, p, holder);
}
template <typename T, typename... A> enable_if_t_<std::is_constructible<T, A...>::value, T*> make_new(A&&... a) { return new T(std::forward<A>(a)...); }
template <typename T, typename... A> enable_if_t_<!std::is_constructible<T, A...>::value, T*> make_new(A&&... a) { return new T{std::forward<A>(a)...}; }
}  // namespace detail

template <typename... A> detail::init_ctor<A...> init() { return {}; }
template <typename F> detail::init_factory<detail::remove_cvref_t<F>> init(F&& f) { return {std::forward<F>(f)}; }
template <typename G, typename S> detail::pickle_pair<G, S> pickle(G g, S s) { return {g, s}; }

template <typename T, typename... Options> class class_ : public object {
 public:
  using type = T;
  using base_type = typename detail::base_of<T, Options...>::type;
  template <typename... E> class_(handle where, const char* n, const E&... e) {
    const char* d = nullptr;
    int u[] = {0, (note(d, e), 0)...};
    (void)u;
    auto* info = new detail::type_info();
    info->cpp = typeid(T);
    info->own = [](void* p) -> std::shared_ptr<void> { return std::shared_ptr<T>(static_cast<T*>(p)); };
    info->copy = detail::copier<T>(detail::usable_copy<T>());
    info->move = detail::mover<T>(detail::usable_move<T>());
    PyTypeObject* base = nullptr;
    set_base(info, base, static_cast<base_type*>(nullptr));
    detail::finish_class(info, where, n, d, base);
    static_cast<object&>(*this) = reinterpret_borrow<object>(reinterpret_cast<PyObject*>(info->type));
  }
  template <typename F, typename... E> class_& def(const char* n, F&& f, const E&... e) { add(n, adapt(std::forward<F>(f)), is_method(*this), e...); return *this; }
  template <typename... A, typename... E> class_& def(const detail::init_ctor<A...>&, const E&... e) {
    add("__init__", [](detail::value_and_holder v, A... a) { detail::construct(v, detail::make_new<T>(std::forward<A>(a)...), nullptr); }, is_method(*this), e...);
    return *this;
  }
  template <typename F, typename... E> class_& def(const detail::init_factory<F>& i, const E&... e) {
    factory("__init__", i.f, static_cast<typename fn_of<F>::type*>(nullptr), e...);
    return *this;
  }
  template <typename G, typename S, typename... E> class_& def(const detail::pickle_pair<G, S>& p, const E&... e) {
    add("__getstate__", p.get, is_method(*this), e...);
    factory("__setstate__", p.set, static_cast<typename fn_of<S>::type*>(nullptr), e...);
    return *this;
  }
  template <typename F, typename... E> class_& def_static(const char* n, F&& f, const E&... e) {
    cpp_function c(std::forward<F>(f), e...);
    detail::add_function(*this, n, c, detail::own_attribute(*this, n), true);
    return *this;
  }
  template <typename G, typename... E> class_& def_property_readonly(const char* n, const G& g, const E&... e) {
    property(n, cpp_function(adapt(g), is_method(*this), return_value_policy::reference_internal, e...), nullptr, e...);
    return *this;
  }
  template <typename G, typename S, typename... E> class_& def_property(const char* n, const G& g, const S& s, const E&... e) {
    cpp_function setter(adapt(s), is_method(*this), e...);
    property(n, cpp_function(adapt(g), is_method(*this), return_value_policy::reference_internal, e...), &setter, e...);
    return *this;
  }
  template <typename D, typename C, typename... E> class_& def_readonly(const char* n, const D C::*m, const E&... e) { return def_property_readonly(n, [m](const T& c) -> const D& { return c.*m; }, e...); }
  template <typename D, typename C, typename... E> class_& def_readwrite(const char* n, D C::*m, const E&... e) {
    return def_property(n, [m](const T& c) -> const D& { return c.*m; }, [m](T& c, const D& v) { c.*m = v; }, e...);
  }

 private:
  template <typename F, typename = void> struct fn_of : detail::callable_of<decltype(&F::operator())> {};
  template <typename R, typename... A> struct fn_of<R (*)(A...), void> { using type = R(A...); };
  static void note(const char*& d, const char* v) { d = v; }
  template <typename X> static void note(const char*&, const X&) {}
  void set_base(detail::type_info*, PyTypeObject*&, detail::void_t_*) {}
  template <typename B> void set_base(detail::type_info* info, PyTypeObject*& base, B*) {
    auto* b = detail::find_type(typeid(B));
    if (!b) pybind11_fail("generic_type: type referenced unknown base type");
    base = b->type;
    info->base_cpp = typeid(B);
    info->upcast = [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); };
  }
  template <typename U, typename R, typename C, typename... A> static auto adapt_to(R (C::*f)(A...)) -> R (U::*)(A...) { return f; }
  template <typename U, typename R, typename C, typename... A> static auto adapt_to(R (C::*f)(A...) const) -> R (U::*)(A...) const { return f; }
  template <typename F> static auto adapt(F f) -> enable_if_t_<std::is_member_function_pointer<F>::value, decltype(adapt_to<T>(f))> { return adapt_to<T>(f); }
  template <typename F> static auto adapt(F&& f) -> enable_if_t_<!std::is_member_function_pointer<detail::remove_cvref_t<F>>::value, F&&> { return std::forward<F>(f); }
  template <typename F, typename... E> void add(const char* n, F&& f, const E&... e) {
    cpp_function c(std::forward<F>(f), e...);
    detail::add_function(*this, n, c, detail::own_attribute(*this, n), false);
    if (std::string(n) == "__eq__" && !detail::own_attribute(*this, "__hash__").ptr()) PyObject_SetAttrString(p_, "__hash__", Py_None);
  }
  template <typename F, typename R, typename... A, typename... E> void factory(const char* n, F f, R (*)(A...), const E&... e) {
    add(n, [f](detail::value_and_holder v, A... a) mutable {
      std::shared_ptr<void>* h = nullptr;
      auto* p = detail::from_factory(f(std::forward<A>(a)...), v.info, h);
      detail::construct(v, p, h);
    }, is_method(*this), e...);
  }
  template <typename... E> void property(const char* n, cpp_function get, cpp_function* set, const E&... e) {
    object mod = reinterpret_steal<object>(PyObject_GetAttrString(p_, "__module__"));
    const char* d = "";
    int u[] = {0, (note(d, e), 0)...};
    (void)u;
    object g = get.make(n, mod), s = set ? set->make(n, mod) : object(none());
    object dd = str(d);
    object p = steal_checked(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(), s.ptr(), Py_None, dd.ptr(), nullptr));
    if (PyObject_SetAttrString(p_, n, p.ptr())) throw error_already_set();
  }
};

template <typename T> class enum_ : public class_<T> {
 public:
  using Base = class_<T>;
  using Scalar = typename std::underlying_type<T>::type;
  using Int = typename std::conditional<std::is_signed<Scalar>::value, long long, unsigned long long>::type;
  template <typename... E> enum_(handle where, const char* n, const E&... e) : Base(where, n, e...), where_(reinterpret_borrow<object>(where)) {
    object d = reinterpret_steal<object>(PyDict_New());
    PyObject_SetAttrString(this->ptr(), "__members__", d.ptr());
    auto type = this->ptr();
    const std::string tn = n;
    auto name_of = [type](T v) -> std::string {
      object m = reinterpret_steal<object>(PyObject_GetAttrString(type, "__members__"));
      PyObject *k, *x; ssize_t pos = 0;
      while (PyDict_Next(m.ptr(), &pos, &k, &x)) if (handle(x).cast<T>() == v) return str(handle(k));
      return "???";
    };
    Base::def(init([](Int i) { return static_cast<T>(i); }), arg("value"));
    Base::def("__int__", [](T v) { return static_cast<Int>(v); });
    Base::def("__index__", [](T v) { return static_cast<Int>(v); });
    Base::def("__eq__", [](const T& a, const object& b) { auto* i = detail::type_of(Py_TYPE(b.ptr())); return i && i == detail::find_type(typeid(T)) && a == b.cast<T>(); });
    Base::def("__ne__", [](const T& a, const object& b) { auto* i = detail::type_of(Py_TYPE(b.ptr())); return !(i && i == detail::find_type(typeid(T)) && a == b.cast<T>()); });
    Base::def("__hash__", [](T v) { return static_cast<Int>(v); });
    Base::def("__repr__", [name_of, tn](T v) { return "<" + tn + "." + name_of(v) + ": " + std::to_string(static_cast<Int>(v)) + ">"; });
    Base::def("__str__", [name_of, tn](T v) { return tn + "." + name_of(v); });
    Base::def("__getstate__", [](T v) { return static_cast<Int>(v); });
    Base::def("__setstate__", [](detail::value_and_holder v, Int i) { detail::construct(v, new T(static_cast<T>(i)), nullptr); });
    Base::def_property_readonly("name", name_of);
    Base::def_property_readonly("value", [](T v) { return static_cast<Int>(v); });
  }
  enum_& value(const char* n, T v, const char* = nullptr) {
    object o = pybind11::cast(v, return_value_policy::copy);
    object m = reinterpret_steal<object>(PyObject_GetAttrString(this->ptr(), "__members__"));
    object k = str(n);
    if (PyDict_Contains(m.ptr(), k.ptr()) == 1) throw value_error(std::string("element \"") + n + "\" already exists!");
    PyDict_SetItem(m.ptr(), k.ptr(), o.ptr());
    PyObject_SetAttrString(this->ptr(), n, o.ptr());
    return *this;
  }
  enum_& export_values() {
    object m = reinterpret_steal<object>(PyObject_GetAttrString(this->ptr(), "__members__"));
    PyObject *k, *x; ssize_t pos = 0;
    while (PyDict_Next(m.ptr(), &pos, &k, &x)) PyObject_SetAttr(where_.ptr(), k, x);
    return *this;
  }

 private:
  object where_;
};

// ---------------------------------------------------------------- iterators
namespace detail {
struct iterator_state { std::function<handle(PyObject*)> next; };
}
template <return_value_policy Policy = return_value_policy::reference_internal, typename It, typename End, typename... E> iterator make_iterator(It first, End last, const E&...) {
  if (!detail::find_type(typeid(detail::iterator_state))) {
    class_<detail::iterator_state>(module_::import("builtins"), "vf_iterator")
        .def("__iter__", [](detail::iterator_state& s) -> detail::iterator_state& { return s; })
        .def("__next__", [](const object& self) -> object {
          auto& s = *static_cast<detail::iterator_state*>(reinterpret_cast<detail::instance*>(self.ptr())->value);
          return reinterpret_steal<object>(s.next(self.ptr()));
        });
  }
  using V = decltype(*first);
  detail::iterator_state s;
  s.next = [first, last](PyObject* self) mutable -> handle {
    if (first == last) throw stop_iteration("");
    handle h = detail::make_caster<V>::cast(*first, detail::policy_override<V>::policy(Policy), self);
    ++first;
    if (!h) throw error_already_set();
    return h;
  };
  return reinterpret_borrow<iterator>(pybind11::cast(std::move(s), return_value_policy::move));
}
template <return_value_policy Policy = return_value_policy::reference_internal, typename C, typename... E> iterator make_iterator(C& c, const E&... e) { return make_iterator<Policy>(std::begin(c), std::end(c), e...); }

template <typename... A> struct overload_cast_impl {
  template <typename R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
  template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
  template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <typename... A> overload_cast_impl<A...> overload_cast_make() { return {}; }
static constexpr auto const_ = std::true_type{};
}  // namespace pybind11

// Classes bound here cannot be derived in Python: they have no constructor.
#define PYBIND11_OVERRIDE_PURE(ret, cname, fn, ...) ::pybind11::pybind11_fail("Tried to call pure virtual function \"" #fn "\"")
#define PYBIND11_OVERLOAD_PURE(ret, cname, fn, ...) ::pybind11::pybind11_fail("Tried to call pure virtual function \"" #fn "\"")
#define PYBIND11_OVERRIDE(ret, cname, fn, ...) return cname::fn(__VA_ARGS__)
#define PYBIND11_OVERLOAD(ret, cname, fn, ...) return cname::fn(__VA_ARGS__)
#define PYBIND11_OVERRIDE_PURE_NAME(ret, cname, name, fn, ...) ::pybind11::pybind11_fail("Tried to call pure virtual function \"" #fn "\"")

#define PYBIND11_MODULE(name, variable, ...) \
  static void vf_init_##name(::pybind11::module_& variable); \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    PyObject* p = PyModule_Create(&def); \
    if (!p) return nullptr; \
    auto m = ::pybind11::reinterpret_borrow<::pybind11::module_>(p); \
    try { vf_init_##name(m); return p; } \
    catch (::pybind11::error_already_set& e) { e.restore(); return nullptr; } \
    catch (const std::exception& e) { PyErr_SetString(PyExc_ImportError, e.what()); return nullptr; } \
  } \
  void vf_init_##name(::pybind11::module_& variable)
