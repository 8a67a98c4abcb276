// A stand-in for the parts of AMReX (2D, no embedded boundaries) the repository
// uses, written from AMReX's documented behaviour. Data is distributed over
// simulated MPI ranks and moved by messages; metadata is known on every rank.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mpi.h>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define AMREX_SPACEDIM 2
#define BL_SPACEDIM 2
#define AMREX_D_DECL(a, b, c) a, b
#define AMREX_D_TERM(a, b, c) a b
#define AMREX_D_PICK(a, b, c) b
#define AMREX_ASSERT(x) assert(x)
#define BL_ASSERT(x) assert(x)
#define AMREX_GPU_HOST_DEVICE
#define AMREX_FORCE_INLINE inline
#define AMREX_GPU_DEVICE
#define AMREX_GPU_HOST
#define AMREX_INLINE inline
#define AMREX_RESTRICT __restrict__
#define AMREX_PRAGMA_SIMD
#define AMREX_ALWAYS_ASSERT(x) assert(x)
#define AMREX_ALWAYS_ASSERT_WITH_MESSAGE(x, m) assert((x) && (m))
#define AMREX_ASSERT_WITH_MESSAGE(x, m) assert((x) && (m))
#define BL_PROFILE_VAR(x, y)
#define BL_PROFILE_VAR_STOP(x)
#define AMREX_NO_INLINE
#define BL_PROFILE(x)

namespace amrex {
using Real = double;
using Long = long;
constexpr int SpaceDim = AMREX_SPACEDIM;

/// What a run of the simulation decides about the library's freedoms.
struct MiniConfig {
  int fill = 0;        // content of fresh memory: 0 zeros, 1 NaN, 2 garbage
  int dm_strategy = 0; // distribution of boxes: 0 round robin, 1 blocks, 2.. scattered
  int base_chop = 0;   // more boxes than necessary on level 0
};
MiniConfig& mini_config();

extern void (*mini_abort_hook)(const std::string&);
[[noreturn]] void Abort(const std::string& msg);
[[noreturn]] void FileOpenFailed(const std::string& file);

template <typename T, std::size_t N> using Array = std::array<T, N>;
using RealArray = std::array<Real, AMREX_SPACEDIM>;
template <typename T> class Vector : public std::vector<T> {
public:
  using std::vector<T>::vector;
  Vector() = default;
  Vector(const std::vector<T>& o) : std::vector<T>(o) {}
  Vector(std::vector<T>&& o) : std::vector<T>(std::move(o)) {}
  T* dataPtr() noexcept { return this->data(); }
  const T* dataPtr() const noexcept { return this->data(); }
  int isize() const noexcept { return static_cast<int>(this->size()); }
};
template <typename T> Vector<T*> GetVecOfPtrs(Vector<T>& a) {
  Vector<T*> r;
  for (auto& x : a) r.push_back(&x);
  return r;
}
class FabArrayBase;
template <typename T, typename = std::enable_if_t<std::is_base_of<FabArrayBase, T>::value>>
Vector<const T*> GetVecOfConstPtrs(const Vector<T>& a) {
  Vector<const T*> r;
  for (auto& x : a) r.push_back(&x);
  return r;
}

template <typename Tag> struct IntWrap {
  IntWrap() = default;
  explicit IntWrap(int j) : i(j) {}
  int i = 0;
};
struct SrcComp : IntWrap<SrcComp> { using IntWrap::IntWrap; };
struct DestComp : IntWrap<DestComp> { using IntWrap::IntWrap; };
struct NumComps : IntWrap<NumComps> { using IntWrap::IntWrap; };

inline int floor_div(int a, int b) { return a < 0 ? -((-a + b - 1) / b) : a / b; }

class IntVect {
public:
  constexpr IntVect() noexcept = default;
  constexpr IntVect(int i, int j) noexcept : v_{i, j} {}
  constexpr explicit IntVect(int s) noexcept : v_{s, s} {}
  explicit IntVect(const int* a) noexcept : v_{a[0], a[1]} {}
  IntVect(const std::array<int, AMREX_SPACEDIM>& a) noexcept : v_{a[0], a[1]} {}
  static IntVect TheUnitVector() { return IntVect(1); }
  static IntVect TheZeroVector() { return IntVect(0); }
  static IntVect TheDimensionVector(int d) {
    IntVect r(0);
    r[d] = 1;
    return r;
  }
  int sum() const noexcept { return v_[0] + v_[1]; }
  long product() const noexcept { return long(v_[0]) * v_[1]; }
  bool operator==(int s) const noexcept { return v_[0] == s && v_[1] == s; }
  bool operator!=(int s) const noexcept { return !(*this == s); }
  bool allGE(int s) const noexcept { return v_[0] >= s && v_[1] >= s; }
  bool allLE(int s) const noexcept { return v_[0] <= s && v_[1] <= s; }
  bool allGT(int s) const noexcept { return v_[0] > s && v_[1] > s; }
  bool allLT(int s) const noexcept { return v_[0] < s && v_[1] < s; }
  int& operator[](int i) noexcept { return v_[i]; }
  int operator[](int i) const noexcept { return v_[i]; }
  int* begin() noexcept { return v_; }
  int* end() noexcept { return v_ + 2; }
  const int* begin() const noexcept { return v_; }
  const int* end() const noexcept { return v_ + 2; }
  const int* getVect() const noexcept { return v_; }
  int max() const noexcept { return std::max(v_[0], v_[1]); }
  int min() const noexcept { return std::min(v_[0], v_[1]); }
  IntVect& max(const IntVect& o) { for (int d = 0; d < 2; ++d) v_[d] = std::max(v_[d], o[d]); return *this; }
  IntVect& min(const IntVect& o) { for (int d = 0; d < 2; ++d) v_[d] = std::min(v_[d], o[d]); return *this; }
  bool operator==(const IntVect& o) const noexcept { return v_[0] == o[0] && v_[1] == o[1]; }
  bool operator!=(const IntVect& o) const noexcept { return !(*this == o); }
  bool operator<(const IntVect& o) const noexcept { return v_[0] < o[0] || (v_[0] == o[0] && v_[1] < o[1]); }
  bool allGE(const IntVect& o) const noexcept { return v_[0] >= o[0] && v_[1] >= o[1]; }
  bool allLE(const IntVect& o) const noexcept { return v_[0] <= o[0] && v_[1] <= o[1]; }
  bool allGT(const IntVect& o) const noexcept { return v_[0] > o[0] && v_[1] > o[1]; }
  bool allLT(const IntVect& o) const noexcept { return v_[0] < o[0] && v_[1] < o[1]; }
  IntVect& operator+=(const IntVect& o) { v_[0] += o[0]; v_[1] += o[1]; return *this; }
  IntVect& operator-=(const IntVect& o) { v_[0] -= o[0]; v_[1] -= o[1]; return *this; }
  IntVect& operator*=(const IntVect& o) { v_[0] *= o[0]; v_[1] *= o[1]; return *this; }
  IntVect& operator/=(const IntVect& o) { v_[0] /= o[0]; v_[1] /= o[1]; return *this; }
  IntVect& operator+=(int s) { return *this += IntVect(s); }
  IntVect& operator-=(int s) { return *this -= IntVect(s); }
  IntVect& operator*=(int s) { return *this *= IntVect(s); }
  friend IntVect operator+(IntVect a, const IntVect& b) { return a += b; }
  friend IntVect operator-(IntVect a, const IntVect& b) { return a -= b; }
  friend IntVect operator*(IntVect a, const IntVect& b) { return a *= b; }
  friend IntVect operator/(IntVect a, const IntVect& b) { return a /= b; }
  friend IntVect operator+(IntVect a, int s) { return a += s; }
  friend IntVect operator-(IntVect a, int s) { return a -= s; }
  friend IntVect operator*(IntVect a, int s) { return a *= s; }
  friend IntVect operator*(int s, IntVect a) { return a *= s; }
  friend IntVect operator/(IntVect a, int s) { return a /= IntVect(s); }
  IntVect operator-() const { return {-v_[0], -v_[1]}; }
  IntVect& coarsen(const IntVect& r) { for (int d = 0; d < 2; ++d) v_[d] = floor_div(v_[d], r[d]); return *this; }
  IntVect& coarsen(int r) { return coarsen(IntVect(r)); }
  IntVect& shift(int d, int s) { v_[d] += s; return *this; }
  IntVect& setVal(int i, int v) { v_[i] = v; return *this; }
  static const IntVect Zero, Unit;
private:
  int v_[2] = {0, 0};
};
inline const IntVect IntVect::Zero{0, 0};
inline const IntVect IntVect::Unit{1, 1};
inline IntVect coarsen(IntVect p, const IntVect& r) { return p.coarsen(r); }
inline IntVect coarsen(IntVect p, int r) { return p.coarsen(r); }
inline IntVect refine(IntVect p, const IntVect& r) { return p *= r; }
inline IntVect refine(IntVect p, int r) { return p *= r; }
struct Dim3 { int x, y, z; };
inline IntVect min(IntVect a, const IntVect& b) { return a.min(b); }
inline IntVect max(IntVect a, const IntVect& b) { return a.max(b); }
std::ostream& operator<<(std::ostream& os, const IntVect& iv);

class IndexType {
public:
  IndexType() = default;
  explicit IndexType(const IntVect& t) : t_(t) {}
  static IndexType TheCellType() { return IndexType(); }
  static IndexType TheNodeType() { return IndexType(IntVect(1)); }
  bool cellCentered() const { return t_ == IntVect(0); }
  bool nodeCentered() const { return t_ == IntVect(1); }
  bool cellCentered(int d) const { return t_[d] == 0; }
  bool nodeCentered(int d) const { return t_[d] == 1; }
  int operator[](int d) const { return t_[d]; }
  IntVect ixType() const { return t_; }
  const IntVect& toIntVect() const { return t_; }
  void set(int d) { t_[d] = 1; }
  void unset(int d) { t_[d] = 0; }
  bool operator==(const IndexType& o) const { return t_ == o.t_; }
  bool operator!=(const IndexType& o) const { return !(t_ == o.t_); }
private:
  IntVect t_{0, 0};
};

class Box {
public:
  Box() : lo_(1), hi_(0) {}
  Box(const IntVect& lo, const IntVect& hi) : lo_(lo), hi_(hi) {}
  Box(const IntVect& lo, const IntVect& hi, IndexType t) : lo_(lo), hi_(hi), type_(t) {}
  const IntVect& smallEnd() const { return lo_; }
  const IntVect& bigEnd() const { return hi_; }
  int smallEnd(int d) const { return lo_[d]; }
  int bigEnd(int d) const { return hi_[d]; }
  IntVect length() const { return hi_ - lo_ + 1; }
  int length(int d) const { return hi_[d] - lo_[d] + 1; }
  IntVect size() const { return length(); }
  const int* loVect() const { return lo_.getVect(); }
  const int* hiVect() const { return hi_.getVect(); }
  double d_numPts() const { return static_cast<double>(numPts()); }
  bool isSquare() const { return length(0) == length(1); }
  int longside() const { return std::max(length(0), length(1)); }
  int shortside() const { return std::min(length(0), length(1)); }
  Box& setType(IndexType t) { type_ = t; return *this; }
  Box& setRange(int d, const IntVect& r) { return setRange(d, r[0], r[1]); }
  Box& minBox(const Box& b) { lo_.min(b.lo_); hi_.max(b.hi_); return *this; }
  Box& growLo(const IntVect& n) { lo_ -= n; return *this; }
  Box& growHi(const IntVect& n) { hi_ += n; return *this; }
  Box operator+(const IntVect& v) const { Box r(*this); return r.shift(v); }
  Box operator-(const IntVect& v) const { Box r(*this); return r.shift(-v); }
  Box& operator+=(const IntVect& v) { return shift(v); }
  Box& operator-=(const IntVect& v) { return shift(-v); }
  bool coarsenable(const IntVect& r) const { Box c(*this); c.coarsen(r).refine(r); return c == *this; }
  bool coarsenable(int r) const { return coarsenable(IntVect(r)); }
  template <typename F> void loop(const F& f) const {
    for (int j = lo_[1]; j <= hi_[1]; ++j)
      for (int i = lo_[0]; i <= hi_[0]; ++i) f(i, j, 0);
  }
  bool isEmpty() const { return !ok(); }
  bool ok() const { return hi_.allGE(lo_); }
  long numPts() const { return ok() ? long(length(0)) * length(1) : 0; }
  long volume() const {
    if (!ok()) return 0;
    long v = 1;
    for (int d = 0; d < 2; ++d) v *= length(d) - type_[d];
    return v;
  }
  IndexType ixType() const { return type_; }
  IntVect type() const { return type_.ixType(); }
  bool cellCentered() const { return type_.cellCentered(); }
  bool contains(const IntVect& p) const { return p.allGE(lo_) && p.allLE(hi_); }
  bool contains(const Box& b) const { return b.lo_.allGE(lo_) && b.hi_.allLE(hi_); }
  bool strictly_contains(const IntVect& p) const { return p.allGT(lo_) && p.allLT(hi_); }
  bool intersects(const Box& b) const { return (*this & b).ok(); }
  bool sameType(const Box& b) const { return type_ == b.type_; }
  Box operator&(const Box& b) const {
    Box r(*this);
    return r &= b;
  }
  Box& operator&=(const Box& b) {
    if (type_ != b.type_) Abort("Box::operator&: different index types");
    lo_.max(b.lo_);
    hi_.min(b.hi_);
    return *this;
  }
  bool operator==(const Box& b) const { return lo_ == b.lo_ && hi_ == b.hi_ && type_ == b.type_; }
  bool operator!=(const Box& b) const { return !(*this == b); }
  bool operator<(const Box& b) const { return lo_ < b.lo_ || (lo_ == b.lo_ && hi_ < b.hi_); }
  Box& grow(int n) { lo_ -= n; hi_ += n; return *this; }
  Box& grow(const IntVect& n) { lo_ -= n; hi_ += n; return *this; }
  Box& grow(int d, int n) { lo_[d] -= n; hi_[d] += n; return *this; }
  Box& growLo(int d, int n = 1) { lo_[d] -= n; return *this; }
  Box& growHi(int d, int n = 1) { hi_[d] += n; return *this; }
  Box& setSmall(int d, int v) { lo_[d] = v; return *this; }
  Box& setBig(int d, int v) { hi_[d] = v; return *this; }
  Box& setSmall(const IntVect& v) { lo_ = v; return *this; }
  Box& setBig(const IntVect& v) { hi_ = v; return *this; }
  Box& setRange(int d, int start, int n = 1) { lo_[d] = start; hi_[d] = start + n - 1; return *this; }
  Box& shift(int d, int n) { lo_[d] += n; hi_[d] += n; return *this; }
  Box& shift(const IntVect& n) { lo_ += n; hi_ += n; return *this; }
  Box& refine(int r) { return refine(IntVect(r)); }
  Box& refine(const IntVect& r) {
    for (int d = 0; d < 2; ++d) {
      const int s = type_[d] ? 0 : 1;
      lo_[d] *= r[d];
      hi_[d] = (hi_[d] + s) * r[d] - s;
    }
    return *this;
  }
  Box& coarsen(int r) { return coarsen(IntVect(r)); }
  Box& coarsen(const IntVect& r) {
    for (int d = 0; d < 2; ++d) {
      lo_[d] = floor_div(lo_[d], r[d]);
      if (type_[d]) {
        const int rem = ((hi_[d] % r[d]) + r[d]) % r[d];
        hi_[d] = floor_div(hi_[d], r[d]) + (rem ? 1 : 0);
      } else {
        hi_[d] = floor_div(hi_[d], r[d]);
      }
    }
    return *this;
  }
  Box& surroundingNodes(int d) { if (!type_[d]) { hi_[d] += 1; type_.set(d); } return *this; }
  Box& surroundingNodes() { for (int d = 0; d < 2; ++d) surroundingNodes(d); return *this; }
  Box& enclosedCells(int d) { if (type_[d]) { hi_[d] -= 1; type_.unset(d); } return *this; }
  Box& enclosedCells() { for (int d = 0; d < 2; ++d) enclosedCells(d); return *this; }
  Box& convert(const IntVect& t) {
    for (int d = 0; d < 2; ++d) {
      if (t[d]) surroundingNodes(d);
      else enclosedCells(d);
    }
    return *this;
  }
  Box& convert(IndexType t) { return convert(t.ixType()); }
private:
  IntVect lo_, hi_;
  IndexType type_;
};
inline Dim3 lbound(const Box& b) { return {b.smallEnd(0), b.smallEnd(1), 0}; }
inline Dim3 ubound(const Box& b) { return {b.bigEnd(0), b.bigEnd(1), 0}; }
inline Dim3 length(const Box& b) { return {b.length(0), b.length(1), 1}; }
inline Box minBox(Box a, const Box& b) { return a.minBox(b); }
template <typename F> void Loop(const Box& b, const F& f) { b.loop(f); }
template <typename F> void LoopOnCpu(const Box& b, const F& f) { b.loop(f); }
template <typename F> void ParallelFor(const Box& b, const F& f) { b.loop(f); }
template <typename F, typename = std::enable_if_t<std::is_invocable_v<F, int, int, int, int>>> void Loop(const Box& b, int n, const F& f) {
  for (int c = 0; c < n; ++c) b.loop([&](int i, int j, int k) { f(i, j, k, c); });
}
template <typename F> void LoopOnCpu(const Box& b, int n, const F& f) { Loop(b, n, f); }
template <typename F> void ParallelFor(const Box& b, int n, const F& f) { Loop(b, n, f); }
inline Box grow(Box b, int n) { return b.grow(n); }
inline Box grow(Box b, const IntVect& n) { return b.grow(n); }
inline Box grow(Box b, int d, int n) { return b.grow(d, n); }
inline Box growLo(Box b, int d, int n) { return b.growLo(d, n); }
inline Box growHi(Box b, int d, int n) { return b.growHi(d, n); }
inline Box shift(Box b, int d, int n) { return b.shift(d, n); }
inline Box shift(Box b, const IntVect& n) { return b.shift(n); }
inline Box surroundingNodes(Box b) { return b.surroundingNodes(); }
inline Box surroundingNodes(Box b, int d) { return b.surroundingNodes(d); }
inline Box enclosedCells(Box b) { return b.enclosedCells(); }
inline Box enclosedCells(Box b, int d) { return b.enclosedCells(d); }
inline Box convert(Box b, const IntVect& t) { return b.convert(t); }
inline Box convert(Box b, IndexType t) { return b.convert(t); }
inline Box refine(Box b, const IntVect& r) { return b.refine(r); }
inline Box refine(Box b, int r) { return b.refine(r); }
inline Box coarsen(Box b, const IntVect& r) { return b.coarsen(r); }
inline Box coarsen(Box b, int r) { return b.coarsen(r); }
inline Box bdryLo(Box b, int d, int n = 1) { b.surroundingNodes(d); b.setRange(d, b.smallEnd(d), n); return b; }
inline Box bdryHi(Box b, int d, int n = 1) { b.surroundingNodes(d); const int e = b.bigEnd(d); b.setSmall(d, e - n + 1); return b; }
inline Box adjCellLo(Box b, int d, int n = 1) { b.enclosedCells(d); const int s = b.smallEnd(d); b.setSmall(d, s - n); b.setBig(d, s - 1); return b; }
inline Box adjCellHi(Box b, int d, int n = 1) { b.enclosedCells(d); const int e = b.bigEnd(d); b.setSmall(d, e + 1); b.setBig(d, e + n); return b; }
std::ostream& operator<<(std::ostream& os, const Box& b);
std::istream& operator>>(std::istream& is, Box& b);

class BoxArray;
class BoxList {
public:
  BoxList() = default;
  explicit BoxList(IndexType t) : type_(t) {}
  explicit BoxList(const Box& b) : type_(b.ixType()), b_{b} {}
  explicit BoxList(const BoxArray& ba);
  explicit BoxList(Vector<Box> v) : b_(std::move(v)) { if (!b_.empty()) type_ = b_[0].ixType(); }
  bool isEmpty() const { return b_.empty(); }
  bool isNotEmpty() const { return !b_.empty(); }
  long size() const { return static_cast<long>(b_.size()); }
  auto begin() { return b_.begin(); }
  auto end() { return b_.end(); }
  auto begin() const { return b_.begin(); }
  auto end() const { return b_.end(); }
  void push_back(const Box& b) { if (b_.empty()) type_ = b.ixType(); b_.push_back(b); }
  void join(const BoxList& o) { for (auto& b : o) push_back(b); }
  void clear() { b_.clear(); }
  IndexType ixType() const { return type_; }
  BoxList& refine(const IntVect& r) { for (auto& b : b_) b.refine(r); return *this; }
  BoxList& coarsen(const IntVect& r) { for (auto& b : b_) b.coarsen(r); return *this; }
  BoxList& shift(int d, int n) { for (auto& b : b_) b.shift(d, n); return *this; }
  BoxList& accrete(int n) { for (auto& b : b_) b.grow(n); return *this; }
  BoxList& intersect(const Box& with);
  BoxList& maxSize(const IntVect& chunk);
  BoxList& complementIn(const Box& b, const BoxList& bl);
  BoxList& simplify();
  Vector<Box>& data() { return b_; }
  const Vector<Box>& data() const { return b_; }
private:
  IndexType type_;
  Vector<Box> b_;
};
/// b without the boxes of bl, as disjoint boxes.
BoxList complementIn(const Box& b, const BoxList& bl);
BoxList boxDiff(const Box& a, const Box& b);

class BoxArray {
public:
  BoxArray();
  explicit BoxArray(const Box& b);
  explicit BoxArray(const BoxList& bl);
  explicit BoxArray(BoxList&& bl);
  void define(const BoxList& bl);
  void define(const Box& b);
  long size() const { return static_cast<long>(r_->boxes.size()); }
  bool empty() const { return r_->boxes.empty(); }
  bool ok() const;
  Box operator[](int i) const { return amrex::convert(r_->boxes[static_cast<std::size_t>(i)], type_); }
  Box get(int i) const { return (*this)[i]; }
  IndexType ixType() const { return type_; }
  BoxList boxList() const;
  bool operator==(const BoxArray& o) const;
  bool operator!=(const BoxArray& o) const { return !(*this == o); }
  bool CellEqual(const BoxArray& o) const;
  BoxArray& convert(const IntVect& t) { type_ = IndexType(t); return *this; }
  BoxArray& convert(IndexType t) { type_ = t; return *this; }
  BoxArray& surroundingNodes() { type_ = IndexType::TheNodeType(); return *this; }
  BoxArray& surroundingNodes(int d) { type_.set(d); return *this; }
  BoxArray& enclosedCells() { type_ = IndexType(); return *this; }
  BoxArray& refine(const IntVect& r);
  BoxArray& refine(int r) { return refine(IntVect(r)); }
  BoxArray& coarsen(const IntVect& r);
  BoxArray& coarsen(int r) { return coarsen(IntVect(r)); }
  BoxArray& maxSize(const IntVect& m);
  BoxArray& maxSize(int m) { return maxSize(IntVect(m)); }
  BoxArray& grow(int n);
  bool contains(const IntVect& p) const;
  bool contains(const Box& b) const;
  bool contains(const BoxArray& b) const;
  bool intersects(const Box& b, int ng = 0) const;
  bool intersects(const Box& b, const IntVect& ng) const;
  std::vector<std::pair<int, Box>> intersections(const Box& b) const;
  bool isDisjoint() const;
  Box minimalBox() const;
  long numPts() const;
  long d_numPts() const { return numPts(); }
  BoxList complementIn(const Box& b) const;
  std::ostream& writeOn(std::ostream& os) const;
  int readFrom(std::istream& is);
  void clear() { *this = BoxArray(); }
  struct Ref { std::vector<Box> boxes; };
  const Ref* ref() const { return r_.get(); }
private:
  void uniqify();
  std::shared_ptr<Ref> r_;
  IndexType type_;
};
inline BoxArray convert(BoxArray ba, const IntVect& t) { return ba.convert(t); }
inline BoxArray convert(BoxArray ba, IndexType t) { return ba.convert(t); }
inline BoxArray refine(BoxArray ba, const IntVect& r) { return ba.refine(r); }
inline BoxArray coarsen(BoxArray ba, const IntVect& r) { return ba.coarsen(r); }
std::ostream& operator<<(std::ostream& os, const BoxArray& ba);

class DistributionMapping {
public:
  DistributionMapping();
  explicit DistributionMapping(const BoxArray& ba, int nprocs = -1);
  explicit DistributionMapping(const Vector<int>& pmap);
  explicit DistributionMapping(Vector<int>&& pmap);
  const Vector<int>& ProcessorMap() const { return *r_; }
  int operator[](int i) const { return (*r_)[static_cast<std::size_t>(i)]; }
  long size() const { return static_cast<long>(r_->size()); }
  bool empty() const { return r_->empty(); }
  bool operator==(const DistributionMapping& o) const { return r_ == o.r_ || *r_ == *o.r_; }
  bool operator!=(const DistributionMapping& o) const { return !(*this == o); }
  const void* ref() const { return r_.get(); }
private:
  std::shared_ptr<Vector<int>> r_;
};

class RealBox {
public:
  RealBox() : lo_{0, 0}, hi_{-1, -1} {}
  RealBox(const Real* lo, const Real* hi) : lo_{lo[0], lo[1]}, hi_{hi[0], hi[1]} {}
  RealBox(const std::array<Real, AMREX_SPACEDIM>& lo, const std::array<Real, AMREX_SPACEDIM>& hi) : lo_(lo), hi_(hi) {}
  RealBox(Real x0, Real y0, Real x1, Real y1) : lo_{x0, y0}, hi_{x1, y1} {}
  const Real* lo() const& { return lo_.data(); }
  const Real* hi() const& { return hi_.data(); }
  Real lo(int d) const { return lo_[static_cast<std::size_t>(d)]; }
  Real hi(int d) const { return hi_[static_cast<std::size_t>(d)]; }
  Real length(int d) const { return hi(d) - lo(d); }
  void setLo(int d, Real v) { lo_[static_cast<std::size_t>(d)] = v; }
  void setHi(int d, Real v) { hi_[static_cast<std::size_t>(d)] = v; }
  bool contains(const Real* p, Real eps = 0.0) const {
    for (int d = 0; d < 2; ++d)
      if (p[d] < lo(d) - eps || p[d] > hi(d) + eps) return false;
    return true;
  }
private:
  std::array<Real, AMREX_SPACEDIM> lo_, hi_;
};

class Periodicity {
public:
  Periodicity() = default;
  explicit Periodicity(const IntVect& p) : p_(p) {}
  bool isAnyPeriodic() const { return p_.max() > 0; }
  bool isPeriodic(int d) const { return p_[d] > 0; }
  std::vector<IntVect> shiftIntVect() const;
  static const Periodicity& NonPeriodic();
  bool operator==(const Periodicity& o) const { return p_ == o.p_; }
private:
  IntVect p_{0, 0};
};

class Geometry {
public:
  Geometry() = default;
  explicit Geometry(const Box& dom, const RealBox* rb = nullptr, int coord = -1, const int* is_per = nullptr) { define(dom, rb, coord, is_per); }
  Geometry(const Box& dom, const RealBox& rb, int coord, const std::array<int, AMREX_SPACEDIM>& is_per) { define(dom, &rb, coord, is_per.data()); }
  void define(const Box& dom, const RealBox* rb = nullptr, int coord = -1, const int* is_per = nullptr);
  /// Forgets the calling rank's default geometry (as a new process would).
  static void ResetDefault();
  const Box& Domain() const { return domain_; }
  const RealBox& ProbDomain() const { return prob_; }
  const Real* ProbLo() const { return prob_.lo(); }
  const Real* ProbHi() const { return prob_.hi(); }
  Real ProbLo(int d) const { return prob_.lo(d); }
  Real ProbHi(int d) const { return prob_.hi(d); }
  const Real* CellSize() const& { return dx_.data(); }
  Real CellSize(int d) const { return dx_[static_cast<std::size_t>(d)]; }
  const Real* InvCellSize() const { return inv_dx_.data(); }
  Real InvCellSize(int d) const { return inv_dx_[static_cast<std::size_t>(d)]; }
  void CellCenter(const IntVect& p, Real* x) const { for (int d = 0; d < 2; ++d) x[d] = CellCenter(p[d], d); }
  Real CellCenter(int p, int d) const { return prob_.lo(d) + CellSize(d) * (0.5 + p); }
  void LoNode(const IntVect& p, Real* x) const { for (int d = 0; d < 2; ++d) x[d] = prob_.lo(d) + CellSize(d) * p[d]; }
  void HiNode(const IntVect& p, Real* x) const { for (int d = 0; d < 2; ++d) x[d] = prob_.lo(d) + CellSize(d) * (p[d] + 1); }
  void LoFace(const IntVect& p, int dir, Real* x) const { for (int d = 0; d < 2; ++d) x[d] = prob_.lo(d) + CellSize(d) * ((d == dir ? 0.0 : 0.5) + p[d]); }
  void HiFace(const IntVect& p, int dir, Real* x) const { for (int d = 0; d < 2; ++d) x[d] = prob_.lo(d) + CellSize(d) * ((d == dir ? 1.0 : 0.5) + p[d]); }
  IntVect CellIndex(const Real* x) const {
    IntVect r;
    for (int d = 0; d < 2; ++d) r[d] = static_cast<int>(std::floor((x[d] - prob_.lo(d)) / CellSize(d)));
    return r;
  }
  int Coord() const { return 0; }
  bool isPeriodic(int d) const { return is_per_[static_cast<std::size_t>(d)] != 0; }
  bool isAnyPeriodic() const { return isPeriodic(0) || isPeriodic(1); }
  bool isAllPeriodic() const { return isPeriodic(0) && isPeriodic(1); }
  std::array<int, AMREX_SPACEDIM> isPeriodic() const { return is_per_; }
  int period(int d) const { return domain_.length(d); }
  Periodicity periodicity() const { return Periodicity(IntVect(isPeriodic(0) ? domain_.length(0) : 0, isPeriodic(1) ? domain_.length(1) : 0)); }
  Box growNonPeriodicDomain(int n) const { Box b(domain_); for (int d = 0; d < 2; ++d) if (!isPeriodic(d)) b.grow(d, n); return b; }
  Box growPeriodicDomain(int n) const { Box b(domain_); for (int d = 0; d < 2; ++d) if (isPeriodic(d)) b.grow(d, n); return b; }
  bool outsideRoundoffDomain() const { return false; }
private:
  Box domain_;
  RealBox prob_;
  std::array<Real, AMREX_SPACEDIM> dx_{}, inv_dx_{};
  std::array<int, AMREX_SPACEDIM> is_per_{};
};

class Arena {
public:
  virtual ~Arena() = default;
  virtual void* alloc(std::size_t n) = 0;
  virtual void free(void* p) = 0;
};
Arena* The_Arena();
void fill_fresh(double* p, std::size_t n);
inline void fill_fresh(char* p, std::size_t n) { std::memset(p, mini_config().fill ? 0x55 : 0, n); }
inline void fill_fresh(int* p, std::size_t n) { std::memset(p, mini_config().fill ? 0x55 : 0, n * sizeof(int)); }

template <typename T> struct Array4 {
  T* p = nullptr;
  Box box;
  int ncomp = 0;
  T& operator()(int i, int j, int k, int c = 0) const {
    if (!box.contains(IntVect(i, j)) || k != 0 || c < 0 || c >= ncomp) Abort("Array4: access outside of the box");
    return p[(i - box.smallEnd(0)) + long(box.length(0)) * (j - box.smallEnd(1)) + c * box.numPts()];
  }
  T& operator()(const IntVect& iv, int c = 0) const { return (*this)(iv[0], iv[1], 0, c); }
  bool contains(int i, int j, int) const { return box.contains(IntVect(i, j)); }
  int nComp() const { return ncomp; }
  explicit operator bool() const { return p != nullptr; }
};
template <typename T> Dim3 lbound(const Array4<T>& a) { return lbound(a.box); }
template <typename T> Dim3 ubound(const Array4<T>& a) { return ubound(a.box); }

template <typename T> class BaseFab {
public:
  BaseFab() = default;
  explicit BaseFab(const Box& b, int n = 1, Arena* a = nullptr) { resize(b, n, a); }
  BaseFab(BaseFab&& o) noexcept { swap(o); }
  BaseFab& operator=(BaseFab&& o) noexcept {
    if (this != &o) { clear(); swap(o); }
    return *this;
  }
  BaseFab(const BaseFab&) = delete;
  BaseFab& operator=(const BaseFab&) = delete;
  virtual ~BaseFab() { clear(); }
  void resize(const Box& b, int n = 1, Arena* a = nullptr) {
    clear();
    box_ = b;
    n_ = n;
    arena_ = a ? a : The_Arena();
    const std::size_t k = static_cast<std::size_t>(size());
    p_ = static_cast<T*>(arena_->alloc(std::max<std::size_t>(1, k) * sizeof(T)));
    fill_fresh(p_, k);
  }
  void clear() {
    if (p_) arena_->free(p_);
    p_ = nullptr;
    n_ = 0;
    box_ = Box();
  }
  const Box& box() const { return box_; }
  int nComp() const { return n_; }
  long size() const { return box_.numPts() * n_; }
  Array4<T> array() { return {p_, box_, n_}; }
  Array4<const T> array() const { return {p_, box_, n_}; }
  Array4<const T> const_array() const { return {p_, box_, n_}; }
  std::size_t nBytes() const { return static_cast<std::size_t>(size()) * sizeof(T); }
  const int* loVect() const { return box_.loVect(); }
  const int* hiVect() const { return box_.hiVect(); }
  const IntVect& smallEnd() const { return box_.smallEnd(); }
  const IntVect& bigEnd() const { return box_.bigEnd(); }
  IntVect length() const { return box_.length(); }
  bool contains(const IntVect& p) const { return box_.contains(p); }
  bool contains(const Box& b) const { return box_.contains(b); }
  BaseFab& plus(const BaseFab& o, const Box& b, int sc, int dc, int nc) { return each(o, b, sc, dc, nc, [](T& x, T y) { x += y; }); }
  BaseFab& minus(const BaseFab& o, const Box& b, int sc, int dc, int nc) { return each(o, b, sc, dc, nc, [](T& x, T y) { x -= y; }); }
  BaseFab& mult(const BaseFab& o, const Box& b, int sc, int dc, int nc) { return each(o, b, sc, dc, nc, [](T& x, T y) { x *= y; }); }
  BaseFab& plus(T v, const Box& b, int c = 0, int n = 1) { return each(*this, b, c, c, n, [v](T& x, T) { x += v; }); }
  BaseFab& plus(T v) { return plus(v, box_, 0, n_); }
  BaseFab& mult(T v) { mult(v, box_, 0, n_); return *this; }
  template <typename F> BaseFab& each(const BaseFab& o, const Box& b, int sc, int dc, int nc, const F& f) {
    if (b.ok())
      for (int c = 0; c < nc; ++c) b.loop([&](int i, int j, int) { f((*this)({i, j}, dc + c), o({i, j}, sc + c)); });
    return *this;
  }
  long numPts() const { return box_.numPts(); }
  Arena* arena() const { return arena_; }
  bool isAllocated() const { return p_ != nullptr; }
  T* dataPtr(int c = 0) { return p_ + c * box_.numPts(); }
  const T* dataPtr(int c = 0) const { return p_ + c * box_.numPts(); }
  std::size_t offset(const IntVect& p, int c) const {
    assert(box_.contains(p) && c >= 0 && c < n_);
    return static_cast<std::size_t>((p[0] - box_.smallEnd(0)) + long(box_.length(0)) * (p[1] - box_.smallEnd(1)) + c * box_.numPts());
  }
  T& operator()(const IntVect& p, int c = 0) { return p_[checked(p, c)]; }
  const T& operator()(const IntVect& p, int c = 0) const { return p_[checked(p, c)]; }
  void setVal(T v) { std::fill_n(p_, size(), v); }
  void setVal(T v, const Box& b, int dcomp = 0, int ncomp = 1 << 20) {
    const Box w = b & box_;
    if (!w.ok()) return;
    ncomp = std::min(ncomp, n_ - dcomp);
    for (int c = dcomp; c < dcomp + ncomp; ++c)
      for (int j = w.smallEnd(1); j <= w.bigEnd(1); ++j)
        for (int i = w.smallEnd(0); i <= w.bigEnd(0); ++i) p_[offset({i, j}, c)] = v;
  }
  BaseFab& copy(const BaseFab& src) { return copy(src, src.box()); }
  BaseFab& copy(const BaseFab& src, const Box& b) {
    return copy(src, b & src.box_ & box_, IntVect(0), 0, 0, std::min(n_, src.n_));
  }
  BaseFab& copy(const BaseFab& src, int scomp, int dcomp, int ncomp = 1) {
    return copy(src, src.box_ & box_, IntVect(0), scomp, dcomp, ncomp);
  }
  BaseFab& copy(const BaseFab& src, const Box& sb, int scomp, const Box& db, int dcomp, int ncomp) {
    return copy(src, sb, db.smallEnd() - sb.smallEnd(), scomp, dcomp, ncomp);
  }
  /// Copies sb of src to sb shifted by s of this.
  BaseFab& copy(const BaseFab& src, const Box& sb, const IntVect& s, int scomp, int dcomp, int ncomp) {
    if (!sb.ok()) return *this;
    for (int c = 0; c < ncomp; ++c)
      for (int j = sb.smallEnd(1); j <= sb.bigEnd(1); ++j)
        for (int i = sb.smallEnd(0); i <= sb.bigEnd(0); ++i)
          (*this)({i + s[0], j + s[1]}, dcomp + c) = src({i, j}, scomp + c);
    return *this;
  }
  T sum(const Box& b, int c, int n = 1) const {
    T s{};
    for (int k = c; k < c + n; ++k)
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) s += (*this)({i, j}, k);
    return s;
  }
  T sum(int c, int n = 1) const { return sum(box_, c, n); }
  T min(const Box& b, int c) const {
    T s = std::numeric_limits<T>::max();
    for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
      for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) s = std::min(s, (*this)({i, j}, c));
    return s;
  }
  T max(const Box& b, int c) const {
    T s = std::numeric_limits<T>::lowest();
    for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
      for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) s = std::max(s, (*this)({i, j}, c));
    return s;
  }
  T min(int c = 0) const { return min(box_, c); }
  T max(int c = 0) const { return max(box_, c); }
  void mult(T f, const Box& b, int c, int n = 1) {
    for (int k = c; k < c + n; ++k)
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) (*this)({i, j}, k) *= f;
  }
protected:
  std::size_t checked(const IntVect& p, int c) const {
    if (!box_.contains(p) || c < 0 || c >= n_) out_of_range(p, c);
    return offset(p, c);
  }
  [[noreturn]] void out_of_range(const IntVect& p, int c) const {
    std::ostringstream os;
    os << "BaseFab: access to " << p << " component " << c << " outside of " << box_ << " x " << n_;
    Abort(os.str());
  }
  void swap(BaseFab& o) noexcept {
    std::swap(box_, o.box_);
    std::swap(n_, o.n_);
    std::swap(p_, o.p_);
    std::swap(arena_, o.arena_);
  }
  Box box_;
  int n_ = 0;
  T* p_ = nullptr;
  Arena* arena_ = nullptr;
};

class FArrayBox : public BaseFab<Real> {
public:
  using BaseFab<Real>::BaseFab;
  FArrayBox() = default;
  FArrayBox(FArrayBox&&) noexcept = default;
  FArrayBox& operator=(FArrayBox&&) noexcept = default;
  bool contains_nan() const { return contains_nan(box_, 0, n_); }
  bool contains_nan(const Box& b, int c, int n) const {
    for (int k = c; k < c + n; ++k)
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i)
          if (std::isnan((*this)({i, j}, k))) return true;
    return false;
  }
};
class TagBox : public BaseFab<char> {
public:
  using TagType = char;
  enum TagVal { CLEAR = 0, BUF, SET };
  using BaseFab<char>::BaseFab;
  TagBox() = default;
  TagBox(TagBox&&) noexcept = default;
  TagBox& operator=(TagBox&&) noexcept = default;
};

template <typename FAB> class FabFactory {
public:
  virtual ~FabFactory() = default;
  virtual FabFactory<FAB>* clone() const = 0;
};
template <typename FAB> class DefaultFabFactory : public FabFactory<FAB> {
public:
  FabFactory<FAB>* clone() const override { return new DefaultFabFactory<FAB>(); }
};
using FArrayBoxFactory = DefaultFabFactory<FArrayBox>;

struct MFInfo {
  bool alloc = true;
  Arena* arena = nullptr;
  MFInfo& SetAlloc(bool a) noexcept { alloc = a; return *this; }
  MFInfo& SetArena(Arena* a) noexcept { arena = a; return *this; }
};

class FabArrayBase {
public:
  struct BDKey {
    const void* ba = nullptr;
    const void* dm = nullptr;
    bool operator==(const BDKey& o) const { return ba == o.ba && dm == o.dm; }
    bool operator!=(const BDKey& o) const { return !(*this == o); }
  };
  enum CpOp { COPY = 0, ADD = 1 };
  virtual ~FabArrayBase() = default;
  const BoxArray& boxArray() const { return boxarray; }
  Box box(int i) const { return boxarray[i]; }
  const DistributionMapping& DistributionMap() const { return distributionMap; }
  int nComp() const { return n_comp; }
  int nGrow(int d = 0) const { return n_grow[d]; }
  IntVect nGrowVect() const { return n_grow; }
  BDKey getBDKey() const { return {boxarray.ref(), distributionMap.ref()}; }
  Box fabbox(int i) const { return amrex::grow(boxarray[i], n_grow); }
  const std::vector<int>& IndexArray() const { return local; }
  int local_size() const { return static_cast<int>(local.size()); }
  long size() const { return boxarray.size(); }
  IndexType ixType() const { return boxarray.ixType(); }
  bool is_cell_centered() const { return boxarray.ixType().cellCentered(); }
  bool is_nodal() const { return boxarray.ixType().nodeCentered(); }
protected:
  void define_base(const BoxArray& ba, const DistributionMapping& dm, int nc, const IntVect& ng);
  BoxArray boxarray;
  DistributionMapping distributionMap;
  int n_comp = 0;
  IntVect n_grow{0, 0};
  std::vector<int> local;
};

class MFIter {
public:
  explicit MFIter(const FabArrayBase& fa) { init(fa.boxArray(), fa.DistributionMap(), fa.nGrowVect(), IntVect(1 << 28)); }
  MFIter(const FabArrayBase& fa, bool tiling) { init(fa.boxArray(), fa.DistributionMap(), fa.nGrowVect(), tiling ? IntVect(1024000, 8) : IntVect(1 << 28)); }
  MFIter(const FabArrayBase& fa, const IntVect& tile) { init(fa.boxArray(), fa.DistributionMap(), fa.nGrowVect(), tile); }
  MFIter(const BoxArray& ba, const DistributionMapping& dm, bool tiling = false) { init(ba, dm, IntVect(0), tiling ? IntVect(1024000, 8) : IntVect(1 << 28)); }
  bool isValid() const { return i_ < items_.size(); }
  MFIter& operator++() { ++i_; return *this; }
  int index() const { return items_[i_].first; }
  int LocalIndex() const { return static_cast<int>(i_); }
  Box tilebox() const;
  Box tilebox(const IntVect& nodal) const;
  Box nodaltilebox(int d = -1) const;
  Box validbox() const { return ba_[index()]; }
  Box fabbox() const { return amrex::grow(validbox(), ng_); }
  Box growntilebox() const { return growntilebox(ng_); }
  Box growntilebox(int n) const { return growntilebox(IntVect(n)); }
  Box growntilebox(const IntVect& n) const;
  Box grownnodaltilebox(int d = -1, int n = -1000000) const { return amrex::grow(nodaltilebox(d), n < 0 ? ng_[0] : n); }
  Box grownnodaltilebox(int d, const IntVect& n) const { return amrex::grow(nodaltilebox(d), n); }
private:
  void init(const BoxArray& ba, const DistributionMapping& dm, const IntVect& ng, const IntVect& tile);
  BoxArray ba_;
  IntVect ng_{0, 0};
  std::vector<std::pair<int, Box>> items_; // box number, cell-centred tile
  std::size_t i_ = 0;
};

namespace ParallelDescriptor {
MPI_Comm Communicator();
int MyProc();
int NProcs();
inline int IOProcessorNumber() { return 0; }
inline bool IOProcessor() { return MyProc() == 0; }
void Barrier(const std::string& = {});
void ReadAndBcastFile(const std::string& filename, Vector<char>& buf, bool exit_on_error = true);
int SeqNum();
void ReduceRealMin(Real& x);
void ReduceRealMax(Real& x);
void ReduceRealSum(Real& x);
void ReduceBoolOr(bool& x);
void ReduceIntMax(int& x);
inline void ReduceRealMin(Real& x, int) { ReduceRealMin(x); }
inline void ReduceRealMax(Real& x, int) { ReduceRealMax(x); }
inline void ReduceRealSum(Real& x, int) { ReduceRealSum(x); }
inline void ReduceRealSum(Real* x, int n) { MPI_Allreduce(MPI_IN_PLACE, x, n, MPI_DOUBLE, MPI_SUM, Communicator()); }
inline void ReduceRealMin(Real* x, int n) { MPI_Allreduce(MPI_IN_PLACE, x, n, MPI_DOUBLE, MPI_MIN, Communicator()); }
inline void ReduceRealMax(Real* x, int n) { MPI_Allreduce(MPI_IN_PLACE, x, n, MPI_DOUBLE, MPI_MAX, Communicator()); }
inline void ReduceBoolAnd(bool& x) { int i = x; MPI_Allreduce(MPI_IN_PLACE, &i, 1, MPI_INT, MPI_MIN, Communicator()); x = i != 0; }
inline void ReduceIntMin(int& x) { MPI_Allreduce(MPI_IN_PLACE, &x, 1, MPI_INT, MPI_MIN, Communicator()); }
inline void ReduceIntSum(int& x) { MPI_Allreduce(MPI_IN_PLACE, &x, 1, MPI_INT, MPI_SUM, Communicator()); }
inline void ReduceLongSum(long& x) { MPI_Allreduce(MPI_IN_PLACE, &x, 1, MPI_LONG, MPI_SUM, Communicator()); }
template <typename T> void Bcast(T* t, std::size_t n, int root = 0) { MPI_Bcast(t, static_cast<int>(n * sizeof(T)), MPI_CHAR, root, Communicator()); }
} // namespace ParallelDescriptor
namespace ParallelAllReduce {
inline void Min(Real& x, MPI_Comm) { ParallelDescriptor::ReduceRealMin(x); }
inline void Max(Real& x, MPI_Comm) { ParallelDescriptor::ReduceRealMax(x); }
inline void Sum(Real& x, MPI_Comm) { ParallelDescriptor::ReduceRealSum(x); }
inline void Min(int& x, MPI_Comm) { ParallelDescriptor::ReduceIntMin(x); }
inline void Max(int& x, MPI_Comm) { ParallelDescriptor::ReduceIntMax(x); }
inline void Sum(int& x, MPI_Comm) { ParallelDescriptor::ReduceIntSum(x); }
inline void And(bool& x, MPI_Comm) { ParallelDescriptor::ReduceBoolAnd(x); }
inline void Or(bool& x, MPI_Comm) { ParallelDescriptor::ReduceBoolOr(x); }
} // namespace ParallelAllReduce
/// Messages of the library do not matter.
struct Print {
  Print() = default;
  explicit Print(int, MPI_Comm = MPI_COMM_WORLD) {}
  explicit Print(std::ostream&) {}
  template <typename T> Print& operator<<(const T&) { return *this; }
};
namespace ParallelContext {
inline bool IOProcessorSub() { return ParallelDescriptor::IOProcessor(); }
inline MPI_Comm CommunicatorAll() { return ParallelDescriptor::Communicator(); }
inline MPI_Comm CommunicatorSub() { return ParallelDescriptor::Communicator(); }
inline int MyProcAll() { return ParallelDescriptor::MyProc(); }
inline int NProcsAll() { return ParallelDescriptor::NProcs(); }
inline int MyProcSub() { return ParallelDescriptor::MyProc(); }
inline int NProcsSub() { return ParallelDescriptor::NProcs(); }
} // namespace ParallelContext

struct CopyItem {
  int dst, src; // box numbers
  Box sb;       // region of the source
  IntVect shift;
};
/// Everything a parallel copy moves, in the same order on every rank.
std::vector<CopyItem> parallel_copy_items(const FabArrayBase& dst, const IntVect& dng, const FabArrayBase& src, const IntVect& sng, const Periodicity& per);

template <typename FAB> class FabArray : public FabArrayBase {
public:
  using value_type = std::remove_pointer_t<decltype(std::declval<FAB&>().dataPtr())>;
  FabArray() = default;
  FabArray(const BoxArray& ba, const DistributionMapping& dm, int nc, int ng, const MFInfo& info = MFInfo(), const FabFactory<FAB>& f = DefaultFabFactory<FAB>()) { define(ba, dm, nc, IntVect(ng), info, f); }
  FabArray(const BoxArray& ba, const DistributionMapping& dm, int nc, const IntVect& ng, const MFInfo& info = MFInfo(), const FabFactory<FAB>& f = DefaultFabFactory<FAB>()) { define(ba, dm, nc, ng, info, f); }
  FabArray(FabArray&&) noexcept = default;
  FabArray& operator=(FabArray&&) noexcept = default;
  FabArray(const FabArray&) = delete;
  FabArray& operator=(const FabArray&) = delete;
  void define(const BoxArray& ba, const DistributionMapping& dm, int nc, int ng, const MFInfo& info = MFInfo(), const FabFactory<FAB>& f = DefaultFabFactory<FAB>()) { define(ba, dm, nc, IntVect(ng), info, f); }
  void define(const BoxArray& ba, const DistributionMapping& dm, int nc, const IntVect& ng, const MFInfo& info = MFInfo(), const FabFactory<FAB>& f = DefaultFabFactory<FAB>()) {
    clear();
    define_base(ba, dm, nc, ng);
    arena_ = info.arena ? info.arena : The_Arena();
    factory_.reset(f.clone());
    defined_ = true;
    if (info.alloc)
      for (int i : local) fabs_.emplace(i, FAB(fabbox(i), nc, arena_));
  }
  void clear() {
    fabs_.clear();
    define_base(BoxArray(), DistributionMapping(), 0, IntVect(0));
    defined_ = false;
  }
  bool empty() const { return boxarray.empty(); }
  bool ok() const { return defined_ && fabs_.size() == local.size(); }
  bool isDefined() const { return defined_; }
  Arena* arena() const { return arena_; }
  const FabFactory<FAB>& Factory() const { return *factory_; }
  FAB& operator[](const MFIter& m) { return (*this)[m.index()]; }
  const FAB& operator[](const MFIter& m) const { return (*this)[m.index()]; }
  FAB& operator[](int i) { return find(i); }
  const FAB& operator[](int i) const { return const_cast<FabArray*>(this)->find(i); }
  auto array(const MFIter& m) { return (*this)[m].array(); }
  auto array(const MFIter& m) const { return (*this)[m].const_array(); }
  auto const_array(const MFIter& m) const { return (*this)[m].const_array(); }
  auto array(int i) { return (*this)[i].array(); }
  auto array(int i) const { return (*this)[i].const_array(); }
  FAB* fabPtr(const MFIter& m) { return &(*this)[m]; }
  FAB& get(const MFIter& m) { return (*this)[m]; }
  const FAB& get(const MFIter& m) const { return (*this)[m]; }
  void setVal(value_type v) { for (auto& [i, f] : fabs_) f.setVal(v); }
  void setVal(value_type v, int ng) { setVal(v, 0, n_comp, IntVect(ng)); }
  void setVal(value_type v, int c, int n, int ng = 0) { setVal(v, c, n, IntVect(ng)); }
  void setVal(value_type v, int c, int n, const IntVect& ng) { for (auto& [i, f] : fabs_) f.setVal(v, amrex::grow(boxarray[i], ng), c, n); }
  void setBndry(value_type v) {
    for (auto& [i, f] : fabs_)
      for (const Box& b : complementIn(f.box(), BoxList(boxarray[i]))) f.setVal(v, b, 0, n_comp);
  }
  void FillBoundary(bool = false) { FillBoundary(Periodicity::NonPeriodic()); }
  void FillBoundary(const Periodicity& p, bool = false) { FillBoundary(0, n_comp, n_grow, p); }
  void FillBoundary(int c, int n, const Periodicity& p, bool = false) { FillBoundary(c, n, n_grow, p); }
  void FillBoundary(int c, int n, const IntVect& ng, const Periodicity& p, bool = false) {
    if (ng.max() <= 0 && boxarray.ixType().cellCentered()) return;
    std::vector<CopyItem> items = parallel_copy_items(*this, ng, *this, IntVect(0), p);
    std::vector<CopyItem> ghost;
    for (const CopyItem& it : items) {
      if (it.dst == it.src && it.shift == IntVect(0)) continue;
      // never into the valid region
      const Box target = amrex::shift(it.sb, it.shift);
      for (const Box& b : boxDiff(target, boxarray[it.dst])) ghost.push_back({it.dst, it.src, amrex::shift(b, -it.shift), it.shift});
    }
    move(*this, ghost, c, c, n, COPY);
  }
  void ParallelCopy(const FabArray& src, const Periodicity& p = Periodicity::NonPeriodic(), CpOp op = COPY) { ParallelCopy(src, 0, 0, n_comp, IntVect(0), IntVect(0), p, op); }
  void ParallelCopy(const FabArray& src, int sc, int dc, int nc, const Periodicity& p = Periodicity::NonPeriodic(), CpOp op = COPY) { ParallelCopy(src, sc, dc, nc, IntVect(0), IntVect(0), p, op); }
  void ParallelCopy(const FabArray& src, int sc, int dc, int nc, int sng, int dng, const Periodicity& p = Periodicity::NonPeriodic(), CpOp op = COPY) { ParallelCopy(src, sc, dc, nc, IntVect(sng), IntVect(dng), p, op); }
  void ParallelCopy(const FabArray& src, int sc, int dc, int nc, const IntVect& sng, const IntVect& dng, const Periodicity& p = Periodicity::NonPeriodic(), CpOp op = COPY) {
    if (size() == 0 || src.size() == 0) return;
    if (ixType() != src.ixType()) Abort("ParallelCopy: different index types");
    if (sc + nc > src.nComp() || dc + nc > nComp()) Abort("ParallelCopy: components out of range");
    move(src, parallel_copy_items(*this, dng, src, sng, p), sc, dc, nc, op);
  }
  void copy(const FabArray& src, const Periodicity& p = Periodicity::NonPeriodic()) { ParallelCopy(src, p); }
  void move(const FabArray& src, const std::vector<CopyItem>& items, int sc, int dc, int nc, CpOp op) {
    const int me = ParallelDescriptor::MyProc();
    const int tag = ParallelDescriptor::SeqNum();
    std::map<int, std::vector<value_type>> out;
    std::map<int, std::vector<const CopyItem*>> in;
    for (const CopyItem& it : items) {
      const int from = src.distributionMap[it.src], to = distributionMap[it.dst];
      if (from == me && to != me) pack(src[it.src], it.sb, sc, nc, out[to]);
      if (from != me && to == me) in[from].push_back(&it);
    }
    std::vector<MPI_Request> req;
    for (auto& [to, buf] : out) {
      req.emplace_back();
      MPI_Isend(buf.data(), static_cast<int>(buf.size() * sizeof(value_type)), MPI_CHAR, to, tag, ParallelDescriptor::Communicator(), &req.back());
    }
    std::map<int, std::vector<value_type>> got;
    for (auto& [from, list] : in) {
      std::size_t n = 0;
      for (auto* it : list) n += static_cast<std::size_t>(it->sb.numPts() * nc);
      auto& buf = got[from];
      buf.resize(n);
      req.emplace_back();
      MPI_Irecv(buf.data(), static_cast<int>(n * sizeof(value_type)), MPI_CHAR, from, tag, ParallelDescriptor::Communicator(), &req.back());
    }
    // Local copies go through a buffer too, so that a copy onto itself is safe.
    for (const CopyItem& it : items)
      if (src.distributionMap[it.src] == me && distributionMap[it.dst] == me) {
        std::vector<value_type> buf;
        pack(src[it.src], it.sb, sc, nc, buf);
        const value_type* q = buf.data();
        unpack((*this)[it.dst], amrex::shift(it.sb, it.shift), dc, nc, q, op);
      }
    if (!req.empty()) MPI_Waitall(static_cast<int>(req.size()), req.data(), MPI_STATUSES_IGNORE);
    for (auto& [from, list] : in) {
      const value_type* q = got[from].data();
      for (auto* it : list) unpack((*this)[it->dst], amrex::shift(it->sb, it->shift), dc, nc, q, op);
    }
  }
protected:
  static void pack(const FAB& f, const Box& b, int c, int n, std::vector<value_type>& out) {
    for (int k = c; k < c + n; ++k)
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) out.push_back(f({i, j}, k));
  }
  static void unpack(FAB& f, const Box& b, int c, int n, const value_type*& q, CpOp op) {
    for (int k = c; k < c + n; ++k)
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j)
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) {
          value_type& x = f({i, j}, k);
          x = op == ADD ? static_cast<value_type>(x + *q) : *q;
          ++q;
        }
  }
  FAB& find(int i) {
    auto it = fabs_.find(i);
    if (it == fabs_.end()) Abort("FabArray: box " + std::to_string(i) + " is not on this rank");
    return it->second;
  }
  std::map<int, FAB> fabs_;
  Arena* arena_ = nullptr;
  std::unique_ptr<FabFactory<FAB>> factory_{new DefaultFabFactory<FAB>()};
  bool defined_ = false;
};

class MultiFab : public FabArray<FArrayBox> {
public:
  using FabArray<FArrayBox>::FabArray;
  MultiFab() = default;
  MultiFab(MultiFab&&) noexcept = default;
  MultiFab& operator=(MultiFab&&) noexcept = default;
  static void Copy(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, int ng) { Copy(dst, src, sc, dc, nc, IntVect(ng)); }
  static void Copy(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, const IntVect& ng);
  static void Swap(MultiFab& a, MultiFab& b, int sc, int dc, int nc, int ng) {
    MultiFab t(a.boxArray(), a.DistributionMap(), nc, ng);
    Copy(t, a, dc, 0, nc, ng);
    Copy(a, b, sc, dc, nc, ng);
    Copy(b, t, 0, sc, nc, ng);
  }
  static void Add(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, int ng) { Add(dst, src, sc, dc, nc, IntVect(ng)); }
  static void Add(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, const IntVect& ng) { dst.each(src, sc, dc, nc, ng, [](Real& x, Real y) { x += y; }); }
  static void Subtract(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, int ng) { dst.each(src, sc, dc, nc, IntVect(ng), [](Real& x, Real y) { x -= y; }); }
  static void Multiply(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, int ng) { dst.each(src, sc, dc, nc, IntVect(ng), [](Real& x, Real y) { x *= y; }); }
  static void Divide(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, int ng) { dst.each(src, sc, dc, nc, IntVect(ng), [](Real& x, Real y) { x /= y; }); }
  static void Saxpy(MultiFab& dst, Real a, const MultiFab& src, int sc, int dc, int nc, int ng) { dst.each(src, sc, dc, nc, IntVect(ng), [a](Real& x, Real y) { x += a * y; }); }
  static void Xpay(MultiFab& dst, Real a, const MultiFab& src, int sc, int dc, int nc, int ng) { dst.each(src, sc, dc, nc, IntVect(ng), [a](Real& x, Real y) { x = y + a * x; }); }
  static void LinComb(MultiFab& dst, Real a, const MultiFab& x, int xc, Real b, const MultiFab& y, int yc, int dc, int nc, int ng) {
    MultiFab t(dst.boxArray(), dst.DistributionMap(), nc, ng);
    Copy(t, y, yc, 0, nc, ng);
    dst.each(x, xc, dc, nc, IntVect(ng), [a](Real& d, Real v) { d = a * v; });
    dst.each(t, 0, dc, nc, IntVect(ng), [b](Real& d, Real v) { d += b * v; });
  }
  void plus(Real v, int c, int n, int ng = 0) { each(*this, c, c, n, IntVect(ng), [v](Real& x, Real) { x += v; }); }
  void plus(Real v, int ng = 0) { plus(v, 0, n_comp, ng); }
  void plus(const MultiFab& o, int sc, int n, int ng) { Add(*this, o, sc, sc, n, ng); }
  void mult(Real v, int c, int n, int ng = 0) { each(*this, c, c, n, IntVect(ng), [v](Real& x, Real) { x *= v; }); }
  void mult(Real v, int ng = 0) { mult(v, 0, n_comp, ng); }
  template <typename F> void each(const MultiFab& o, int sc, int dc, int nc, const IntVect& ng, const F& f) {
    for (int i : local) (*this)[i].each(o[i], amrex::grow(boxarray[i], ng), sc, dc, nc, f);
  }
  bool contains_nan(int c, int n, int ng = 0, bool local_only = false) const {
    bool r = false;
    for (int i : local) r = r || (*this)[i].contains_nan(amrex::grow(boxarray[i], ng), c, n);
    if (!local_only) ParallelDescriptor::ReduceBoolOr(r);
    return r;
  }
  Real norm0(int c = 0, int ng = 0, bool local_only = false) const {
    Real r = 0;
    for (int i : local)
      amrex::grow(boxarray[i], ng).loop([&](int x, int y, int) { r = std::max(r, std::abs((*this)[i]({x, y}, c))); });
    if (!local_only) ParallelDescriptor::ReduceRealMax(r);
    return r;
  }
  bool contains_nan(bool local = false) const;
  Real min(int c, int ng = 0, bool local = false) const;
  Real max(int c, int ng = 0, bool local = false) const;
  Real sum(int c = 0, bool local = false) const;
};
class iMultiFab;

class TagBoxArray : public FabArray<TagBox> {
public:
  TagBoxArray(const BoxArray& ba, const DistributionMapping& dm, const IntVect& ng) : FabArray<TagBox>(ba, dm, 1, ng) { setVal(TagBox::CLEAR); }
  using FabArray<TagBox>::setVal;
  void buffer(const IntVect& n);
};

struct Orientation {
  Orientation(int d, bool hi) : dir(d), high(hi) {}
  int dir;
  bool high;
  int index() const { return dir + (high ? AMREX_SPACEDIM : 0); }
};

class FluxRegister {
public:
  enum FrOp { COPY = 0, ADD = 1 };
  FluxRegister() = default;
  FluxRegister(FluxRegister&&) noexcept = default;
  FluxRegister& operator=(FluxRegister&&) noexcept = default;
  void define(const BoxArray& fine, const DistributionMapping& dm, const IntVect& ratio, int fine_lev, int nvar);
  void clear();
  const IntVect& refRatio() const { return ratio_; }
  int fineLevel() const { return fine_level_; }
  int crseLevel() const { return fine_level_ - 1; }
  int nComp() const { return ncomp_; }
  const BoxArray& coarsenedBoxes() const { return grids_; }
  void setVal(Real v);
  void CrseInit(const MultiFab& flux, int dir, int sc, int dc, int nc, Real mult, FrOp op = COPY);
  void FineAdd(const MultiFab& flux, int dir, int sc, int dc, int nc, Real mult);
  void Reflux(MultiFab& s, Real scale, int sc, int dc, int nc, const Geometry& g);
  void Reflux(MultiFab& s, int dir, Real scale, int sc, int dc, int nc, const Geometry& g);
  void ClearInternalBorders(const Geometry& g);
private:
  BoxArray grids_;
  std::array<MultiFab, 2 * AMREX_SPACEDIM> reg_;
  IntVect ratio_{-1, -1};
  int fine_level_ = -1;
  int ncomp_ = -1;
};

struct BCRec {
  int bc[2 * AMREX_SPACEDIM] = {};
};
class Interpolater {
public:
  virtual ~Interpolater() = default;
};
class PCInterp : public Interpolater {};
extern PCInterp pc_interp;
template <typename F> struct NullInterpHook {
  void operator()(F&, const Box&, int, int) const {}
};

using FillPhys = std::function<void(MultiFab&, int, int, const IntVect&, Real, int)>;
void fill_patch_single(MultiFab& mf, const IntVect& ng, Real t, const Vector<MultiFab*>& smf, const Vector<Real>& st, int sc, int dc, int nc, const Geometry& g, const FillPhys& bc, int bcc);
void fill_patch_two(MultiFab& mf, Real t, const Vector<MultiFab*>& cmf, const Vector<Real>& ct, const Vector<MultiFab*>& fmf, const Vector<Real>& ft, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, const FillPhys& cbc, int cbcc, const FillPhys& fbc, int fbcc, const IntVect& ratio);
void interp_from_coarse(MultiFab& mf, Real t, const MultiFab& cmf, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, const FillPhys& cbc, int cbcc, const FillPhys& fbc, int fbcc, const IntVect& ratio);
template <typename BC> FillPhys phys(BC& bc) {
  return [&bc](MultiFab& mf, int d, int n, const IntVect& ng, Real t, int c) { bc(mf, d, n, ng, t, c); };
}
template <typename BC>
void FillPatchSingleLevel(MultiFab& mf, Real t, const Vector<MultiFab*>& smf, const Vector<Real>& st, int sc, int dc, int nc, const Geometry& g, BC& bc, int bcc) {
  fill_patch_single(mf, mf.nGrowVect(), t, smf, st, sc, dc, nc, g, phys(bc), bcc);
}
template <typename CBC, typename FBC, typename Interp>
void FillPatchTwoLevels(MultiFab& mf, Real t, const Vector<MultiFab*>& cmf, const Vector<Real>& ct, const Vector<MultiFab*>& fmf, const Vector<Real>& ft, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, CBC& cbc, int cbcc, FBC& fbc, int fbcc, const IntVect& ratio, Interp*, const Vector<BCRec>&, int) {
  fill_patch_two(mf, t, cmf, ct, fmf, ft, sc, dc, nc, cg, fg, phys(cbc), cbcc, phys(fbc), fbcc, ratio);
}
template <typename CBC, typename FBC, typename Interp>
void InterpFromCoarseLevel(MultiFab& mf, Real t, const MultiFab& cmf, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, CBC& cbc, int cbcc, FBC& fbc, int fbcc, const IntVect& ratio, Interp*, const Vector<BCRec>&, int) {
  interp_from_coarse(mf, t, cmf, sc, dc, nc, cg, fg, phys(cbc), cbcc, phys(fbc), fbcc, ratio);
}
void average_down(const MultiFab& fine, MultiFab& crse, const Geometry& fg, const Geometry& cg, int sc, int nc, const IntVect& ratio);
void average_down(const MultiFab& fine, MultiFab& crse, int sc, int nc, const IntVect& ratio);
void average_node_to_cellcenter(MultiFab& cc, int dcomp, const MultiFab& nd, int scomp, int ncomp, int ngrow = 0);

struct AmrInfo {
  int verbose = 0;
  int max_level = 0;
  Vector<IntVect> ref_ratio;
  Vector<IntVect> blocking_factor;
  Vector<IntVect> max_grid_size;
  Vector<IntVect> n_error_buf;
  Real grid_eff = 0.7;
  int n_proper = 1;
  bool refine_grid_layout = true;
  bool iterate_on_new_grids = true;
  bool check_input = true;
};

class AmrMesh : protected AmrInfo {
public:
  AmrMesh() = default;
  AmrMesh(const RealBox* rb, int max_level, const Vector<int>& n_cell, int coord, Vector<IntVect> ratios, const int* is_per);
  AmrMesh(const Geometry& level_0, const AmrInfo& info);
  AmrMesh(AmrMesh&&) = default;
  AmrMesh& operator=(AmrMesh&&) = default;
  virtual ~AmrMesh() = default;
  int maxLevel() const { return max_level; }
  int finestLevel() const { return finest_level; }
  const Vector<Geometry>& Geom() const { return geom; }
  const Geometry& Geom(int l) const { return geom[static_cast<std::size_t>(l)]; }
  const Vector<BoxArray>& boxArray() const { return grids; }
  const BoxArray& boxArray(int l) const { return grids[static_cast<std::size_t>(l)]; }
  const Vector<DistributionMapping>& DistributionMap() const { return dmap; }
  void SetMaxGridSize(const IntVect& n) { for (auto& x : max_grid_size) x = n; }
  void SetBlockingFactor(const IntVect& n) { for (auto& x : blocking_factor) x = n; }
  void SetNProper(int n) { n_proper = n; }
  void SetGridEff(Real e) { grid_eff = e; }
  void SetFinestLevel(int l) { finest_level = l; }
  void SetBoxArray(int l, const BoxArray& ba) { grids[static_cast<std::size_t>(l)] = ba; }
  void SetDistributionMap(int l, const DistributionMapping& dm) { dmap[static_cast<std::size_t>(l)] = dm; ++num_setdm; }
  void ClearBoxArray(int l) { grids[static_cast<std::size_t>(l)] = BoxArray(); }
  void ClearDistributionMap(int l) { dmap[static_cast<std::size_t>(l)] = DistributionMapping(); }
  BoxArray MakeBaseGrids() const;
  void MakeNewGrids(Real time);
  void MakeNewGrids(int lbase, Real time, int& new_finest, Vector<BoxArray>& new_grids);
  virtual void ErrorEst(int, TagBoxArray&, Real, int) {}
  virtual void MakeNewLevelFromScratch(int, Real, const BoxArray&, const DistributionMapping&) {}
  virtual DistributionMapping MakeDistributionMap(int, const BoxArray& ba) { return DistributionMapping(ba); }
protected:
  void check() const;
  int finest_level = 0;
  Vector<Geometry> geom;
  Vector<DistributionMapping> dmap;
  Vector<BoxArray> grids;
  unsigned num_setdm = 0;
};

class AmrCore : public AmrMesh {
public:
  AmrCore() = default;
  AmrCore(const RealBox* rb, int max_level, const Vector<int>& n_cell, int coord = -1, Vector<IntVect> ratios = {}, const int* is_per = nullptr) : AmrMesh(rb, max_level, n_cell, coord, std::move(ratios), is_per) {}
  AmrCore(const Geometry& level_0, const AmrInfo& info) : AmrMesh(level_0, info) {}
  AmrCore(AmrCore&&) = default;
  AmrCore& operator=(AmrCore&&) = default;
  ~AmrCore() override = default;
  virtual void regrid(int lbase, Real time, bool initial = false);
protected:
  virtual void MakeNewLevelFromCoarse(int, Real, const BoxArray&, const DistributionMapping&) = 0;
  virtual void RemakeLevel(int, Real, const BoxArray&, const DistributionMapping&) = 0;
  virtual void ClearLevel(int) = 0;
  int verbose = 0;
};

class VisMF {
public:
  struct Header { enum Version { Undefined_v1 = 0, Version_v1 = 1, NoFabHeader_v1 = 2 }; };
  using IO_Buffer = Vector<char>;
  enum { IO_Buffer_Size = 262144 };
  static long GetIOBufferSize() { return IO_Buffer_Size; }
  static void SetHeaderVersion(Header::Version) {}
  static long Write(const MultiFab& mf, const std::string& name);
  static void Read(MultiFab& mf, const std::string& name);
};
void PreBuildDirectorHierarchy(const std::string& dir, const std::string& prefix, int n, bool call_barrier);
bool UtilCreateDirectory(const std::string& path, unsigned mode);
std::string MultiFabFileFullPrefix(int level, const std::string& dir, const std::string& prefix = "Level_", const std::string& mf = "data");
void WriteMultiLevelPlotfile(const std::string& name, int nlevels, const Vector<const MultiFab*>& mf, const Vector<std::string>& varnames, const Vector<Geometry>& geom, Real time, const Vector<int>& level_steps, const Vector<IntVect>& ref_ratio,
                             const std::string& version = "HyperCLaw-V1.1", const std::string& level_prefix = "Level_", const std::string& mf_prefix = "Cell",
                             const Vector<std::string>& extra_dirs = Vector<std::string>());

class ParmParse {
public:
  explicit ParmParse(const std::string& = {}) {}
  template <typename T> void add(const char*, const T&) {}
};
namespace EB2 {
class IndexSpace {};
} // namespace EB2
inline void Initialize(int&, char**&) {}
inline void Initialize(MPI_Comm, std::ostream& = std::cout, std::ostream& = std::cerr, void (*)(const char*) = nullptr) {}
void Finalize();

} // namespace amrex
