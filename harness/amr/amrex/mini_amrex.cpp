#include "mini_amrex.hpp"
#include <cerrno>
#include <cstdio>
#include <iomanip>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

namespace amrex {
namespace {
struct RankState {
  bool default_geometry = false;
  RealBox prob;
  std::array<int, AMREX_SPACEDIM> is_per{};
  int seq = 0;
};
thread_local RankState rank_state;
} // namespace

MiniConfig& mini_config() {
  static MiniConfig c;
  return c;
}
void (*mini_abort_hook)(const std::string&) = nullptr;
void Abort(const std::string& msg) {
  if (mini_abort_hook) mini_abort_hook(msg);
  throw std::runtime_error("amrex::Abort: " + msg);
}
void FileOpenFailed(const std::string& file) { Abort("Couldn't open file: " + file); }
PCInterp pc_interp;

std::ostream& operator<<(std::ostream& os, const IntVect& iv) { return os << '(' << iv[0] << ',' << iv[1] << ')'; }
std::ostream& operator<<(std::ostream& os, const Box& b) { return os << '(' << b.smallEnd() << ' ' << b.bigEnd() << ' ' << b.type() << ')'; }
namespace {
void want(std::istream& is, char c) {
  char d = 0;
  is >> std::ws;
  is.get(d);
  if (d != c) is.setstate(std::ios::failbit);
}
IntVect read_iv(std::istream& is) {
  IntVect r;
  want(is, '(');
  is >> r[0];
  want(is, ',');
  is >> r[1];
  want(is, ')');
  return r;
}
} // namespace
std::istream& operator>>(std::istream& is, Box& b) {
  want(is, '(');
  const IntVect lo = read_iv(is), hi = read_iv(is), t = read_iv(is);
  want(is, ')');
  if (is) b = Box(lo, hi, IndexType(t));
  return is;
}

// ---------------------------------------------------------------- box lists
BoxList boxDiff(const Box& a, const Box& b) {
  BoxList out(a.ixType());
  const Box c = a & b;
  if (!c.ok()) {
    if (a.ok()) out.push_back(a);
    return out;
  }
  Box rest = a;
  for (int d = AMREX_SPACEDIM - 1; d >= 0; --d) {
    if (rest.smallEnd(d) < c.smallEnd(d)) {
      Box p = rest;
      p.setBig(d, c.smallEnd(d) - 1);
      out.push_back(p);
      rest.setSmall(d, c.smallEnd(d));
    }
    if (rest.bigEnd(d) > c.bigEnd(d)) {
      Box p = rest;
      p.setSmall(d, c.bigEnd(d) + 1);
      out.push_back(p);
      rest.setBig(d, c.bigEnd(d));
    }
  }
  return out;
}
BoxList complementIn(const Box& b, const BoxList& bl) {
  BoxList out;
  out.complementIn(b, bl);
  return out;
}
BoxList& BoxList::complementIn(const Box& b, const BoxList& bl) {
  Vector<Box> left;
  if (b.ok()) left.push_back(b);
  for (const Box& x : bl) {
    Vector<Box> next;
    for (const Box& y : left)
      for (const Box& z : boxDiff(y, x)) next.push_back(z);
    left = std::move(next);
  }
  b_ = std::move(left);
  type_ = b.ixType();
  return *this;
}
BoxList& BoxList::intersect(const Box& with) {
  Vector<Box> r;
  for (const Box& x : b_)
    if ((x & with).ok()) r.push_back(x & with);
  b_ = std::move(r);
  return *this;
}
BoxList& BoxList::maxSize(const IntVect& chunk) {
  for (int d = 0; d < AMREX_SPACEDIM; ++d) {
    Vector<Box> r;
    for (const Box& x : b_) {
      const int len = x.length(d), c = std::max(1, chunk[d]);
      if (len <= c) {
        r.push_back(x);
        continue;
      }
      // pieces of equal size up to one in units of the largest common power of two, as AMReX cuts them
      int ratio = 1, bs = c, nlen = len;
      for (; bs % 2 == 0 && nlen % 2 == 0; bs /= 2, nlen /= 2) ratio *= 2;
      const int n = (nlen + bs - 1) / bs;
      int at = x.smallEnd(d);
      for (int k = 0; k < n; ++k) {
        const int here = (nlen / n + (k < nlen % n ? 1 : 0)) * ratio;
        Box p = x;
        p.setRange(d, at, here);
        at += here;
        r.push_back(p);
      }
    }
    b_ = std::move(r);
  }
  return *this;
}
BoxList& BoxList::simplify() {
  bool again = true;
  while (again) {
    again = false;
    for (std::size_t i = 0; i < b_.size() && !again; ++i)
      for (std::size_t j = i + 1; j < b_.size() && !again; ++j)
        for (int d = 0; d < AMREX_SPACEDIM; ++d) {
          const int e = 1 - d;
          Box &a = b_[i], &b = b_[j];
          if (a.smallEnd(e) != b.smallEnd(e) || a.bigEnd(e) != b.bigEnd(e)) continue;
          if (a.bigEnd(d) + 1 == b.smallEnd(d) || b.bigEnd(d) + 1 == a.smallEnd(d)) {
            a = Box(min(a.smallEnd(), b.smallEnd()), max(a.bigEnd(), b.bigEnd()), a.ixType());
            b_.erase(b_.begin() + static_cast<long>(j));
            again = true;
            break;
          }
        }
  }
  return *this;
}
BoxList::BoxList(const BoxArray& ba) { *this = ba.boxList(); }

// ---------------------------------------------------------------- box arrays
BoxArray::BoxArray() : r_(std::make_shared<Ref>()) {}
BoxArray::BoxArray(const Box& b) : BoxArray() { define(b); }
BoxArray::BoxArray(const BoxList& bl) : BoxArray() { define(bl); }
BoxArray::BoxArray(BoxList&& bl) : BoxArray() { define(bl); }
void BoxArray::define(const Box& b) { define(BoxList(b)); }
void BoxArray::define(const BoxList& bl) {
  r_ = std::make_shared<Ref>();
  type_ = bl.ixType();
  for (const Box& b : bl) r_->boxes.push_back(amrex::enclosedCells(b));
}
bool BoxArray::ok() const {
  for (auto& b : r_->boxes)
    if (!b.ok()) return false;
  return !r_->boxes.empty();
}
BoxList BoxArray::boxList() const {
  BoxList l(type_);
  for (int i = 0; i < size(); ++i) l.push_back((*this)[i]);
  return l;
}
bool BoxArray::operator==(const BoxArray& o) const { return type_ == o.type_ && (r_ == o.r_ || r_->boxes == o.r_->boxes); }
bool BoxArray::CellEqual(const BoxArray& o) const { return r_ == o.r_ || r_->boxes == o.r_->boxes; }
void BoxArray::uniqify() {
  auto n = std::make_shared<Ref>();
  n->boxes = r_->boxes;
  r_ = n;
}
BoxArray& BoxArray::refine(const IntVect& r) {
  uniqify();
  for (auto& b : r_->boxes) b.refine(r);
  return *this;
}
BoxArray& BoxArray::coarsen(const IntVect& r) {
  uniqify();
  for (auto& b : r_->boxes) b.coarsen(r);
  return *this;
}
BoxArray& BoxArray::maxSize(const IntVect& m) {
  BoxList l;
  for (auto& b : r_->boxes) l.push_back(b);
  l.maxSize(m);
  const IndexType t = type_;
  define(l);
  type_ = t;
  return *this;
}
BoxArray& BoxArray::grow(int n) {
  uniqify();
  for (auto& b : r_->boxes) b.grow(n);
  return *this;
}
bool BoxArray::contains(const IntVect& p) const {
  for (int i = 0; i < size(); ++i)
    if ((*this)[i].contains(p)) return true;
  return false;
}
BoxList BoxArray::complementIn(const Box& b) const { return amrex::complementIn(b, boxList()); }
bool BoxArray::contains(const Box& b) const { return complementIn(b).isEmpty(); }
bool BoxArray::contains(const BoxArray& o) const {
  for (int i = 0; i < o.size(); ++i)
    if (!contains(o[i])) return false;
  return true;
}
std::vector<std::pair<int, Box>> BoxArray::intersections(const Box& b) const {
  std::vector<std::pair<int, Box>> r;
  for (int i = 0; i < size(); ++i) {
    const Box x = (*this)[i] & b;
    if (x.ok()) r.emplace_back(i, x);
  }
  return r;
}
bool BoxArray::intersects(const Box& b, int ng) const { return intersects(b, IntVect(ng)); }
bool BoxArray::intersects(const Box& b, const IntVect& ng) const {
  for (int k = 0; k < size(); ++k)
    if (amrex::grow((*this)[k], ng).intersects(b)) return true;
  return false;
}
bool BoxArray::isDisjoint() const {
  for (std::size_t i = 0; i < r_->boxes.size(); ++i)
    for (std::size_t j = i + 1; j < r_->boxes.size(); ++j)
      if (r_->boxes[i].intersects(r_->boxes[j])) return false;
  return true;
}
Box BoxArray::minimalBox() const {
  Box r;
  for (int i = 0; i < size(); ++i)
    r = i ? Box(min(r.smallEnd(), (*this)[i].smallEnd()), max(r.bigEnd(), (*this)[i].bigEnd()), type_) : (*this)[i];
  return r;
}
long BoxArray::numPts() const {
  long n = 0;
  for (int i = 0; i < size(); ++i) n += (*this)[i].numPts();
  return n;
}
std::ostream& BoxArray::writeOn(std::ostream& os) const {
  os << '(' << size() << ' ' << 0 << '\n';
  for (int i = 0; i < size(); ++i) os << (*this)[i] << '\n';
  os << ')';
  if (os.fail()) Abort("BoxArray::writeOn(ostream&) failed");
  return os;
}
int BoxArray::readFrom(std::istream& is) {
  want(is, '(');
  long n = 0, dummy = 0;
  is >> n >> dummy;
  BoxList l;
  for (long i = 0; i < n && is; ++i) {
    Box b;
    is >> b;
    l.push_back(b);
  }
  want(is, ')');
  if (is.fail()) Abort("BoxArray::readFrom(istream&) failed");
  define(l);
  return static_cast<int>(n);
}
std::ostream& operator<<(std::ostream& os, const BoxArray& ba) { return ba.writeOn(os); }

// ---------------------------------------------------------------- distribution
DistributionMapping::DistributionMapping() : r_(std::make_shared<Vector<int>>()) {}
DistributionMapping::DistributionMapping(const Vector<int>& p) : r_(std::make_shared<Vector<int>>(p)) {}
DistributionMapping::DistributionMapping(Vector<int>&& p) : r_(std::make_shared<Vector<int>>(std::move(p))) {}
DistributionMapping::DistributionMapping(const BoxArray& ba, int nprocs) : r_(std::make_shared<Vector<int>>()) {
  const int np = nprocs > 0 ? nprocs : ParallelDescriptor::NProcs();
  const int s = mini_config().dm_strategy;
  const long n = ba.size();
  for (long i = 0; i < n; ++i) {
    int p;
    if (s == 0) p = static_cast<int>(i % np);
    else if (s == 1) p = static_cast<int>(i * np / n);
    else {
      const Box b = ba[static_cast<int>(i)];
      std::uint64_t h = 1469598103934665603ull + static_cast<std::uint64_t>(s);
      for (int v : {b.smallEnd(0), b.smallEnd(1), b.bigEnd(0), b.bigEnd(1), static_cast<int>(i)}) h = (h ^ static_cast<std::uint64_t>(v + 77)) * 1099511628211ull;
      p = static_cast<int>((h >> 20) % static_cast<std::uint64_t>(np));
    }
    r_->push_back(p);
  }
}

// ---------------------------------------------------------------- geometry
std::vector<IntVect> Periodicity::shiftIntVect() const {
  std::vector<IntVect> r;
  const int a = p_[0] > 0, b = p_[1] > 0;
  for (int i = -a; i <= a; ++i)
    for (int j = -b; j <= b; ++j) r.emplace_back(i * p_[0], j * p_[1]);
  return r;
}
const Periodicity& Periodicity::NonPeriodic() {
  static const Periodicity p;
  return p;
}
void Geometry::ResetDefault() { rank_state = RankState{}; }
void Geometry::define(const Box& dom, const RealBox* rb, int, const int* is_per) {
  if (!rank_state.default_geometry) {
    rank_state.default_geometry = true;
    rank_state.prob = rb ? *rb : RealBox(0, 0, 1, 1);
    for (int d = 0; d < 2; ++d) rank_state.is_per[static_cast<std::size_t>(d)] = is_per ? is_per[d] : 0;
  }
  domain_ = dom;
  prob_ = rb ? *rb : rank_state.prob;
  for (int d = 0; d < 2; ++d) {
    const auto k = static_cast<std::size_t>(d);
    is_per_[k] = is_per ? is_per[d] : rank_state.is_per[k];
    dx_[k] = prob_.length(d) / domain_.length(d);
    inv_dx_[k] = 1.0 / dx_[k];
  }
}

// ---------------------------------------------------------------- memory
namespace {
class MallocArena : public Arena {
public:
  void* alloc(std::size_t n) override { return ::operator new(n, std::align_val_t(64)); }
  void free(void* p) override { ::operator delete(p, std::align_val_t(64)); }
};
} // namespace
Arena* The_Arena() {
  static MallocArena a;
  return &a;
}
void fill_fresh(double* p, std::size_t n) {
  const int f = mini_config().fill;
  if (f == 0) std::fill_n(p, n, 0.0);
  else if (f == 1) std::fill_n(p, n, std::numeric_limits<double>::quiet_NaN());
  else
    for (std::size_t i = 0; i < n; ++i) p[i] = -3.25e7 - static_cast<double>(i % 97);
}

// ---------------------------------------------------------------- parallel
namespace ParallelDescriptor {
MPI_Comm Communicator() { return MPI_COMM_WORLD; }
int MyProc() {
  int r = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  return r;
}
int NProcs() {
  int n = 1;
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  return n;
}
void Barrier(const std::string&) { MPI_Barrier(Communicator()); }
int SeqNum() { return 1000 + (rank_state.seq++ % 20000); }
void ReadAndBcastFile(const std::string& filename, Vector<char>& buf, bool exit_on_error) {
  long n = -1;
  if (IOProcessor()) {
    std::ifstream in(filename, std::ios::in | std::ios::binary);
    if (in.good()) {
      std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      buf.resize(all.size() + 1);
      std::copy(all.begin(), all.end(), buf.begin());
      buf[all.size()] = '\0';
      n = static_cast<long>(all.size());
    }
  }
  MPI_Bcast(&n, 1, MPI_LONG, 0, Communicator());
  if (n < 0) {
    if (exit_on_error) FileOpenFailed(filename);
    buf.clear();
    return;
  }
  buf.resize(static_cast<std::size_t>(n + 1));
  MPI_Bcast(buf.data(), static_cast<int>(n + 1), MPI_CHAR, 0, Communicator());
}
void ReduceRealMin(Real& x) { Real y = x; MPI_Allreduce(&y, &x, 1, MPI_DOUBLE, MPI_MIN, Communicator()); }
void ReduceRealMax(Real& x) { Real y = x; MPI_Allreduce(&y, &x, 1, MPI_DOUBLE, MPI_MAX, Communicator()); }
void ReduceRealSum(Real& x) { Real y = x; MPI_Allreduce(&y, &x, 1, MPI_DOUBLE, MPI_SUM, Communicator()); }
void ReduceBoolOr(bool& x) { int y = x, z = 0; MPI_Allreduce(&y, &z, 1, MPI_INT, MPI_MAX, Communicator()); x = z != 0; }
void ReduceIntMax(int& x) { int y = x; MPI_Allreduce(&y, &x, 1, MPI_INT, MPI_MAX, Communicator()); }
} // namespace ParallelDescriptor
void Finalize() {}

void FabArrayBase::define_base(const BoxArray& ba, const DistributionMapping& dm, int nc, const IntVect& ng) {
  if (ba.size() != dm.size()) Abort("FabArray: BoxArray and DistributionMapping differ in size");
  boxarray = ba;
  distributionMap = dm;
  n_comp = nc;
  n_grow = ng;
  local.clear();
  if (!ba.empty()) {
    const int me = ParallelDescriptor::MyProc();
    for (int i = 0; i < ba.size(); ++i)
      if (dm[i] == me) local.push_back(i);
  }
}
std::vector<CopyItem> parallel_copy_items(const FabArrayBase& dst, const IntVect& dng, const FabArrayBase& src, const IntVect& sng, const Periodicity& per) {
  std::vector<CopyItem> items;
  const std::vector<IntVect> shifts = per.shiftIntVect();
  const BoxArray& db = dst.boxArray();
  const BoxArray& sb = src.boxArray();
  for (int i = 0; i < db.size(); ++i) {
    const Box d = amrex::grow(db[i], dng);
    for (int j = 0; j < sb.size(); ++j) {
      const Box s = amrex::grow(sb[j], sng);
      for (const IntVect& sh : shifts) {
        const Box x = amrex::shift(s, sh) & d;
        if (x.ok()) items.push_back({i, j, amrex::shift(x, -sh), sh});
      }
    }
  }
  return items;
}

// ---------------------------------------------------------------- MFIter
void MFIter::init(const BoxArray& ba, const DistributionMapping& dm, const IntVect& ng, const IntVect& tile) {
  ba_ = ba;
  ng_ = ng;
  const int me = ba.empty() ? 0 : ParallelDescriptor::MyProc();
  for (int i = 0; i < ba.size(); ++i) {
    if (dm[i] != me) continue;
    const Box cells = amrex::enclosedCells(ba[i]);
    std::array<std::vector<std::pair<int, int>>, 2> cut;
    for (int d = 0; d < 2; ++d) {
      const int len = cells.length(d), t = std::max(1, tile[d]);
      const int n = std::max(1, len / t); // tiles are at least as large as asked for
      int at = cells.smallEnd(d);
      for (int k = 0; k < n; ++k) {
        const int here = len / n + (k < len % n ? 1 : 0);
        cut[static_cast<std::size_t>(d)].emplace_back(at, at + here - 1);
        at += here;
      }
    }
    for (auto& [y0, y1] : cut[1])
      for (auto& [x0, x1] : cut[0]) items_.emplace_back(i, Box(IntVect(x0, y0), IntVect(x1, y1)));
  }
}
Box MFIter::tilebox() const { return tilebox(ba_.ixType().ixType()); }
Box MFIter::tilebox(const IntVect& nodal) const {
  Box bx = items_[i_].second;
  const Box cells = amrex::enclosedCells(ba_[index()]);
  const Box valid = amrex::convert(cells, nodal);
  IndexType t(nodal);
  Box r(bx.smallEnd(), bx.bigEnd(), t);
  for (int d = 0; d < 2; ++d)
    if (nodal[d] && bx.bigEnd(d) == cells.bigEnd(d)) r.setBig(d, valid.bigEnd(d));
  return r;
}
Box MFIter::nodaltilebox(int dir) const {
  IntVect t = ba_.ixType().ixType();
  for (int d = 0; d < 2; ++d)
    if (dir < 0 || dir == d) t[d] = 1;
  return tilebox(t);
}
Box MFIter::growntilebox(const IntVect& n) const {
  Box bx = tilebox();
  const Box v = validbox();
  for (int d = 0; d < 2; ++d) {
    if (bx.smallEnd(d) == v.smallEnd(d)) bx.growLo(d, n[d]);
    if (bx.bigEnd(d) == v.bigEnd(d)) bx.growHi(d, n[d]);
  }
  return bx;
}

// ---------------------------------------------------------------- MultiFab
void MultiFab::Copy(MultiFab& dst, const MultiFab& src, int sc, int dc, int nc, const IntVect& ng) {
  if (!dst.boxArray().CellEqual(src.boxArray()) || dst.DistributionMap() != src.DistributionMap()) Abort("MultiFab::Copy: different layouts");
  for (int i : dst.IndexArray()) {
    const Box b = amrex::grow(dst.boxArray()[i], ng);
    dst[i].copy(src[i], b, IntVect(0), sc, dc, nc);
  }
}
bool MultiFab::contains_nan(bool is_local) const {
  bool r = false;
  for (int i : local) {
    const bool here = (*this)[i].contains_nan();
    if (here && getenv("MINI_NAN")) {
      const FArrayBox& f = (*this)[i];
      const Box b = f.box();
      std::ofstream dbg(getenv("MINI_NAN"));
      dbg << "NaN in box " << i << ' ' << boxarray[i] << " grown " << b << ':';
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x)
          for (int c = 0; c < f.nComp(); ++c)
            if (f({x, y}, c) != f({x, y}, c)) dbg << " " << c << "(" << x << ',' << y << ')';
      dbg << "\nall boxes: " << boxarray << std::endl;
    }
    r = r || here;
  }
  if (!is_local) ParallelDescriptor::ReduceBoolOr(r);
  return r;
}
Real MultiFab::min(int c, int ng, bool is_local) const {
  Real r = std::numeric_limits<Real>::max();
  for (int i : local) r = std::min(r, (*this)[i].min(amrex::grow(boxarray[i], ng), c));
  if (!is_local) ParallelDescriptor::ReduceRealMin(r);
  return r;
}
Real MultiFab::max(int c, int ng, bool is_local) const {
  Real r = std::numeric_limits<Real>::lowest();
  for (int i : local) r = std::max(r, (*this)[i].max(amrex::grow(boxarray[i], ng), c));
  if (!is_local) ParallelDescriptor::ReduceRealMax(r);
  return r;
}
Real MultiFab::sum(int c, bool is_local) const {
  Real r = 0;
  for (int i : local) r += (*this)[i].sum(boxarray[i], c);
  if (!is_local) ParallelDescriptor::ReduceRealSum(r);
  return r;
}

// ---------------------------------------------------------------- flux register
void FluxRegister::define(const BoxArray& fine, const DistributionMapping& dm, const IntVect& ratio, int lev, int nvar) {
  if (fine_level_ >= 0 && !grids_.empty()) Abort("FluxRegister::define: already defined");
  ratio_ = ratio;
  fine_level_ = lev;
  ncomp_ = nvar;
  grids_ = fine;
  grids_.coarsen(ratio);
  for (int d = 0; d < 2; ++d)
    for (int hi = 0; hi < 2; ++hi) {
      BoxList l;
      for (int i = 0; i < grids_.size(); ++i) l.push_back(hi ? bdryHi(grids_[i], d) : bdryLo(grids_[i], d));
      // face boxes one node wide: kept as they are, which BoxArray's cell based
      // storage cannot express, hence one cell wide boxes of cells with the
      // number of the face.
      BoxList cells;
      for (Box b : l) cells.push_back(Box(b.smallEnd(), b.bigEnd()));
      reg_[static_cast<std::size_t>(d + 2 * hi)].define(BoxArray(cells), dm, nvar, 0);
    }
}
void FluxRegister::clear() {
  for (auto& r : reg_) r.clear();
  grids_ = BoxArray();
  fine_level_ = -1;
  ncomp_ = -1;
}
void FluxRegister::setVal(Real v) { for (auto& r : reg_) r.setVal(v); }
namespace {
/// A face-centred array with cell-centred indices equal to the face numbers.
MultiFab as_cells(const MultiFab& flux, int sc, int nc, Real mult) {
  BoxList l;
  for (int i = 0; i < flux.boxArray().size(); ++i) {
    const Box b = flux.boxArray()[i];
    l.push_back(Box(b.smallEnd(), b.bigEnd()));
  }
  MultiFab r(BoxArray(l), flux.DistributionMap(), nc, 0);
  for (int i : r.IndexArray()) {
    const Box b = r.boxArray()[i];
    for (int c = 0; c < nc; ++c)
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) r[i]({x, y}, c) = mult * flux[i]({x, y}, sc + c);
  }
  return r;
}
} // namespace
void FluxRegister::CrseInit(const MultiFab& flux, int dir, int sc, int dc, int nc, Real mult, FrOp op) {
  const MultiFab mf = as_cells(flux, sc, nc, mult);
  for (int hi = 0; hi < 2; ++hi) {
    MultiFab& r = reg_[static_cast<std::size_t>(dir + 2 * hi)];
    if (op == COPY) {
      r.ParallelCopy(mf, 0, dc, nc);
    } else {
      MultiFab tmp(r.boxArray(), r.DistributionMap(), nc, 0);
      tmp.setVal(0.0);
      tmp.ParallelCopy(mf, 0, 0, nc);
      for (int i : r.IndexArray()) {
        const Box b = r[i].box();
        for (int c = 0; c < nc; ++c)
          for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
            for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) r[i]({x, y}, dc + c) += tmp[i]({x, y}, c);
      }
    }
  }
}
void FluxRegister::FineAdd(const MultiFab& flux, int dir, int sc, int dc, int nc, Real mult) {
  if (flux.boxArray().size() != grids_.size()) Abort("FluxRegister::FineAdd: different layouts");
  const int e = 1 - dir;
  for (int i : flux.IndexArray())
    for (int hi = 0; hi < 2; ++hi) {
      FArrayBox& r = reg_[static_cast<std::size_t>(dir + 2 * hi)][i];
      const Box b = r.box();
      for (int c = 0; c < nc; ++c)
        for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
          for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) {
            const IntVect ic(x, y);
            Real s = 0;
            for (int k = 0; k < ratio_[e]; ++k) {
              IntVect f;
              f[dir] = ic[dir] * ratio_[dir];
              f[e] = ic[e] * ratio_[e] + k;
              s += flux[i](f, sc + c);
            }
            r(ic, dc + c) += mult * s;
          }
    }
}
void FluxRegister::Reflux(MultiFab& s, Real scale, int sc, int dc, int nc, const Geometry& g) {
  for (int d = 0; d < 2; ++d) Reflux(s, d, scale, sc, dc, nc, g);
}
void FluxRegister::Reflux(MultiFab& s, int dir, Real scale, int sc, int dc, int nc, const Geometry& g) {
  const Real vol = g.CellSize(0) * g.CellSize(1);
  for (int hi = 0; hi < 2; ++hi) {
    const MultiFab& r = reg_[static_cast<std::size_t>(dir + 2 * hi)];
    BoxList l;
    for (int i = 0; i < s.boxArray().size(); ++i) {
      const Box b = amrex::surroundingNodes(s.boxArray()[i], dir);
      l.push_back(Box(b.smallEnd(), b.bigEnd()));
    }
    MultiFab f(BoxArray(l), s.DistributionMap(), nc, 0);
    f.setVal(0.0);
    f.ParallelCopy(r, sc, 0, nc, g.periodicity());
    for (int i : s.IndexArray()) {
      const Box b = s.boxArray()[i];
      for (int c = 0; c < nc; ++c)
        for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
          for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) {
            const IntVect p(x, y);
            if (hi) {
              s[i](p, dc + c) += scale * (f[i](p, c) / vol);
            } else {
              IntVect q = p;
              q[dir] += 1;
              s[i](p, dc + c) += -scale * (f[i](q, c) / vol);
            }
          }
    }
  }
}
void FluxRegister::ClearInternalBorders(const Geometry& g) {
  const Box domain = g.Domain();
  for (int dir = 0; dir < 2; ++dir)
    for (int hi = 0; hi < 2; ++hi) {
      MultiFab& a = reg_[static_cast<std::size_t>(dir + 2 * hi)];
      const MultiFab& b = reg_[static_cast<std::size_t>(dir + 2 * (1 - hi))];
      for (int i : a.IndexArray()) {
        const Box bx = a.boxArray()[i];
        for (auto& [j, x] : b.boxArray().intersections(bx)) a[i].setVal(0.0, x);
        if (g.isPeriodic(dir)) {
          int sh = 0;
          if (!hi && bx.smallEnd(dir) == domain.smallEnd(dir)) sh = domain.length(dir);
          if (hi && bx.bigEnd(dir) == domain.bigEnd(dir) + 1) sh = -domain.length(dir);
          if (sh)
            for (auto& [j, x] : b.boxArray().intersections(amrex::shift(bx, dir, sh))) a[i].setVal(0.0, amrex::shift(x, dir, -sh));
        }
      }
    }
}

// ---------------------------------------------------------------- fill patch
void fill_patch_single(MultiFab& mf, const IntVect& ng, Real t, const Vector<MultiFab*>& smf, const Vector<Real>& st, int sc, int dc, int nc, const Geometry& g, const FillPhys& bc, int bcc) {
  if (smf.size() != 1 || st.size() != 1) Abort("FillPatchSingleLevel: interpolation in time is not supported");
  if (&mf == smf[0] && sc == dc) mf.FillBoundary(dc, nc, ng, g.periodicity());
  else mf.ParallelCopy(*smf[0], sc, dc, nc, IntVect(0), ng, g.periodicity());
  bc(mf, dc, nc, ng, t, bcc);
}
namespace {
void interpolate_pc(MultiFab& fine, const MultiFab& crse, const IntVect& ratio, int nc) {
  for (int i : fine.IndexArray()) {
    const Box b = fine[i].box();
    for (int c = 0; c < nc; ++c)
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) fine[i]({x, y}, c) = crse[i](coarsen(IntVect(x, y), ratio), c);
  }
}
} // namespace
void fill_patch_two(MultiFab& mf, Real t, const Vector<MultiFab*>& cmf, const Vector<Real>& ct, const Vector<MultiFab*>& fmf, const Vector<Real>& ft, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, const FillPhys& cbc, int cbcc, const FillPhys& fbc, int fbcc, const IntVect& ratio) {
  const IntVect ng = mf.nGrowVect();
  if (ng.max() > 0 || mf.getBDKey() != fmf[0]->getBDKey()) {
    Box domain = fg.Domain();
    for (int d = 0; d < 2; ++d)
      if (fg.isPeriodic(d)) domain.grow(d, ng[d]);
    BoxList have;
    for (const IntVect& sh : fg.periodicity().shiftIntVect())
      for (int i = 0; i < fmf[0]->boxArray().size(); ++i) have.push_back(amrex::shift(fmf[0]->boxArray()[i], sh));
    BoxList fine, crse;
    Vector<int> owner;
    for (int i = 0; i < mf.boxArray().size(); ++i)
      for (const Box& b : complementIn(amrex::grow(mf.boxArray()[i], ng) & domain, have)) {
        fine.push_back(b);
        crse.push_back(amrex::coarsen(b, ratio));
        owner.push_back(mf.DistributionMap()[i]);
      }
    if (!fine.isEmpty()) {
      const DistributionMapping dm(owner);
      MultiFab cp(BoxArray(crse), dm, nc, 0);
      fill_patch_single(cp, IntVect(0), t, cmf, ct, sc, 0, nc, cg, cbc, cbcc);
      MultiFab fp(BoxArray(fine), dm, nc, 0);
      interpolate_pc(fp, cp, ratio, nc);
      mf.ParallelCopy(fp, 0, dc, nc, IntVect(0), ng);
    }
  }
  fill_patch_single(mf, ng, t, fmf, ft, sc, dc, nc, fg, fbc, fbcc);
}
void interp_from_coarse(MultiFab& mf, Real t, const MultiFab& cmf, int sc, int dc, int nc, const Geometry& cg, const Geometry& fg, const FillPhys& cbc, int cbcc, const FillPhys& fbc, int fbcc, const IntVect& ratio) {
  const IntVect ng = mf.nGrowVect();
  Box domain = fg.Domain();
  for (int d = 0; d < 2; ++d)
    if (fg.isPeriodic(d)) domain.grow(d, ng[d]);
  BoxList fine, crse;
  for (int i = 0; i < mf.boxArray().size(); ++i) {
    fine.push_back(amrex::grow(mf.boxArray()[i], ng) & domain);
    crse.push_back(amrex::coarsen(amrex::grow(mf.boxArray()[i], ng) & domain, ratio));
  }
  MultiFab cp(BoxArray(crse), mf.DistributionMap(), nc, 0);
  cp.ParallelCopy(cmf, sc, 0, nc, IntVect(0), IntVect(0), cg.periodicity());
  cbc(cp, 0, nc, IntVect(0), t, cbcc);
  MultiFab fp(BoxArray(fine), mf.DistributionMap(), nc, 0);
  interpolate_pc(fp, cp, ratio, nc);
  for (int i : mf.IndexArray()) mf[i].copy(fp[i], fp[i].box(), IntVect(0), 0, dc, nc);
  fbc(mf, dc, nc, ng, t, fbcc);
}
void average_down(const MultiFab& fine, MultiFab& crse, int sc, int nc, const IntVect& ratio) {
  BoxArray cba = fine.boxArray();
  cba.coarsen(ratio);
  MultiFab tmp(cba, fine.DistributionMap(), nc, 0);
  const Real w = 1.0 / (ratio[0] * ratio[1]);
  for (int i : tmp.IndexArray()) {
    const Box b = tmp[i].box();
    for (int c = 0; c < nc; ++c)
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) {
          Real s = 0;
          for (int q = 0; q < ratio[1]; ++q)
            for (int p = 0; p < ratio[0]; ++p) s += fine[i]({x * ratio[0] + p, y * ratio[1] + q}, sc + c);
          tmp[i]({x, y}, c) = s * w;
        }
  }
  crse.ParallelCopy(tmp, 0, sc, nc);
}
void average_down(const MultiFab& fine, MultiFab& crse, const Geometry&, const Geometry&, int sc, int nc, const IntVect& ratio) { average_down(fine, crse, sc, nc, ratio); }
void average_node_to_cellcenter(MultiFab& cc, int dcomp, const MultiFab& nd, int scomp, int ncomp, int ngrow) {
  for (int i : cc.IndexArray()) {
    const Box b = amrex::grow(cc.boxArray()[i], ngrow);
    for (int c = 0; c < ncomp; ++c)
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x)
          cc[i]({x, y}, dcomp + c) = 0.25 * (nd[i]({x, y}, scomp + c) + nd[i]({x + 1, y}, scomp + c) + nd[i]({x, y + 1}, scomp + c) + nd[i]({x + 1, y + 1}, scomp + c));
  }
}

// ---------------------------------------------------------------- gridding
void TagBoxArray::buffer(const IntVect& n) {
  if (n.max() <= 0) return;
  for (auto& [i, f] : fabs_) {
    const Box inside = boxarray[i];
    std::vector<IntVect> set;
    for (int y = inside.smallEnd(1); y <= inside.bigEnd(1); ++y)
      for (int x = inside.smallEnd(0); x <= inside.bigEnd(0); ++x)
        if (f({x, y}) == TagBox::SET) set.emplace_back(x, y);
    for (const IntVect& p : set)
      for (int dy = -n[1]; dy <= n[1]; ++dy)
        for (int dx = -n[0]; dx <= n[0]; ++dx) {
          const IntVect q(p[0] + dx, p[1] + dy);
          if (f.box().contains(q) && f(q) == TagBox::CLEAR) f(q) = TagBox::BUF;
        }
  }
}
AmrMesh::AmrMesh(const RealBox* rb, int ml, const Vector<int>& n_cell, int coord, Vector<IntVect> ratios, const int* is_per) {
  max_level = ml;
  const auto nlev = static_cast<std::size_t>(max_level + 1);
  geom.resize(nlev);
  dmap.resize(nlev);
  grids.resize(nlev);
  ref_ratio = std::move(ratios);
  ref_ratio.resize(nlev, IntVect(2));
  blocking_factor.resize(nlev, IntVect(8));
  max_grid_size.resize(nlev, IntVect(128));
  n_error_buf.resize(nlev, IntVect(1));
  Box b(IntVect(0), IntVect(n_cell[0] - 1, n_cell[1] - 1));
  for (std::size_t i = 0; i < nlev; ++i) {
    geom[i].define(b, rb, coord, is_per);
    b.refine(ref_ratio[i]);
  }
  finest_level = -1;
}
AmrMesh::AmrMesh(const Geometry& g, const AmrInfo& info) : AmrInfo(info) {
  const auto nlev = static_cast<std::size_t>(max_level + 1);
  geom.resize(nlev);
  dmap.resize(nlev);
  grids.resize(nlev);
  Box b = g.Domain();
  const auto per = g.isPeriodic();
  for (std::size_t i = 0; i < nlev; ++i) {
    geom[i].define(b, &g.ProbDomain(), g.Coord(), per.data());
    b.refine(ref_ratio[i]);
  }
  finest_level = -1;
}
BoxArray AmrMesh::MakeBaseGrids() const {
  const Box dom = geom[0].Domain();
  IntVect fac(2);
  for (int d = 0; d < 2; ++d)
    if (dom.length(d) % 2) fac[d] = 1;
  BoxArray ba(amrex::coarsen(dom, fac));
  ba.maxSize(max(max_grid_size[0] / fac, IntVect(1)));
  ba.refine(fac);
  const int np = ParallelDescriptor::NProcs();
  if (refine_grid_layout) {
    IntVect chunk = max_grid_size[0];
    int more = mini_config().base_chop;
    while (ba.size() < np || more-- > 0) {
      bool cut = false;
      for (int d = 1; d >= 0; --d) {
        const int half = chunk[d] / 2;
        if (half > 0 && half >= blocking_factor[0][d] && half % blocking_factor[0][d] == 0) {
          chunk[d] = half;
          ba.maxSize(chunk);
          cut = true;
          break;
        }
      }
      if (!cut) break;
    }
  }
  return ba;
}
namespace {
/// A set of cells of a small index box.
struct Bits {
  Box b;
  std::vector<char> v;
  explicit Bits(const Box& x) : b(x), v(static_cast<std::size_t>(x.numPts()), 0) {}
  char& at(const IntVect& p) { return v[static_cast<std::size_t>((p[0] - b.smallEnd(0)) + b.length(0) * (p[1] - b.smallEnd(1)))]; }
  bool get(const IntVect& p) const { return v[static_cast<std::size_t>((p[0] - b.smallEnd(0)) + b.length(0) * (p[1] - b.smallEnd(1)))] != 0; }
  template <typename F> void each(F f) const {
    for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
      for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) f(IntVect(x, y));
  }
  void fill(const Box& x, char val) {
    const Box w = x & b;
    for (int j = w.smallEnd(1); j <= w.bigEnd(1); ++j)
      for (int i = w.smallEnd(0); i <= w.bigEnd(0); ++i) at({i, j}) = val;
  }
  void dilate(int n, const Geometry& g) {
    Bits old = *this;
    old.each([&](const IntVect& p) {
      if (!old.get(p)) return;
      for (int dy = -n; dy <= n; ++dy)
        for (int dx = -n; dx <= n; ++dx) {
          IntVect q(p[0] + dx, p[1] + dy);
          for (int d = 0; d < 2; ++d)
            if (g.isPeriodic(d)) q[d] = b.smallEnd(d) + ((q[d] - b.smallEnd(d)) % b.length(d) + b.length(d)) % b.length(d);
          if (b.contains(q)) at(q) = 1;
        }
    });
  }
};
void cluster(const Bits& tags, const std::vector<IntVect>& cells, double eff, std::vector<Box>& out) {
  if (cells.empty()) return;
  IntVect lo = cells[0], hi = cells[0];
  for (const IntVect& p : cells) {
    lo.min(p);
    hi.max(p);
  }
  const Box b(lo, hi);
  if (static_cast<double>(cells.size()) >= eff * static_cast<double>(b.numPts()) || b.numPts() == 1) {
    out.push_back(b);
    return;
  }
  // Holes in the signatures first, then the strongest inflection, then the middle.
  int best_d = -1, best_at = 0, best_w = -1;
  std::array<std::vector<int>, 2> sig;
  for (int d = 0; d < 2; ++d) {
    sig[static_cast<std::size_t>(d)].assign(static_cast<std::size_t>(b.length(d)), 0);
    for (const IntVect& p : cells) ++sig[static_cast<std::size_t>(d)][static_cast<std::size_t>(p[d] - lo[d])];
  }
  for (int d = 0; d < 2 && best_d < 0; ++d)
    for (int k = 1; k + 1 < b.length(d); ++k)
      if (sig[static_cast<std::size_t>(d)][static_cast<std::size_t>(k)] == 0) {
        best_d = d;
        best_at = lo[d] + k;
        break;
      }
  if (best_d < 0) {
    for (int d = 0; d < 2; ++d) {
      const auto& s = sig[static_cast<std::size_t>(d)];
      for (int k = 1; k + 2 < b.length(d); ++k) {
        const auto u = static_cast<std::size_t>(k);
        const int l0 = s[u - 1] - 2 * s[u] + s[u + 1], l1 = s[u] - 2 * s[u + 1] + s[u + 2];
        if ((l0 < 0) != (l1 < 0) && std::abs(l1 - l0) > best_w) {
          best_w = std::abs(l1 - l0);
          best_d = d;
          best_at = lo[d] + k + 1;
        }
      }
    }
  }
  if (best_d < 0) {
    best_d = b.length(0) >= b.length(1) ? 0 : 1;
    best_at = lo[best_d] + b.length(best_d) / 2;
  }
  std::vector<IntVect> left, right;
  for (const IntVect& p : cells) (p[best_d] < best_at ? left : right).push_back(p);
  cluster(tags, left, eff, out);
  cluster(tags, right, eff, out);
}
} // namespace
void AmrMesh::MakeNewGrids(int lbase, Real time, int& new_finest, Vector<BoxArray>& new_grids) {
  const int max_crse = std::min(finest_level, max_level - 1);
  if (static_cast<int>(new_grids.size()) < max_crse + 2) new_grids.resize(static_cast<std::size_t>(max_crse + 2));
  const auto at = [](auto& v, int i) -> auto& { return v[static_cast<std::size_t>(i)]; };
  std::vector<IntVect> bf(static_cast<std::size_t>(max_level));
  for (int i = 0; i <= max_crse; ++i)
    for (int d = 0; d < 2; ++d) at(bf, i)[d] = std::max(1, at(blocking_factor, i + 1)[d] / at(ref_ratio, i)[d]);
  std::vector<Bits> comp; // the complement of the proper nesting domain
  for (int i = lbase; i <= max_crse; ++i) {
    Bits c(amrex::coarsen(at(geom, i).Domain(), at(bf, i)));
    if (i == lbase) {
      std::fill(c.v.begin(), c.v.end(), 1);
      for (int k = 0; k < at(grids, lbase).size(); ++k) c.fill(amrex::coarsen(at(grids, lbase)[k], at(bf, i)), 0);
    } else {
      const Bits& prev = comp.back();
      const IntVect rr = at(ref_ratio, i - 1) * at(bf, i - 1) / at(bf, i);
      prev.each([&](const IntVect& p) {
        if (prev.get(p)) c.fill(amrex::refine(Box(p, p), max(rr, IntVect(1))), 1);
      });
    }
    c.dilate(n_proper, at(geom, i));
    comp.push_back(std::move(c));
  }
  new_finest = lbase;
  for (int levc = max_crse; levc >= lbase; --levc) {
    const int levf = levc + 1;
    const Geometry& g = at(geom, levc);
    const IntVect& buf = at(n_error_buf, levc);
    TagBoxArray tags(at(grids, levc), at(dmap, levc), buf);
    ErrorEst(levc, tags, time, 0);
    tags.buffer(buf);
    const Bits& out = comp[static_cast<std::size_t>(levc - lbase)];
    Bits mine(out.b);
    const std::vector<IntVect> shifts = g.periodicity().shiftIntVect();
    const auto tag = [&](const IntVect& p) {
      for (const IntVect& s : shifts) {
        const IntVect q = p + s;
        if (g.Domain().contains(q)) mine.at(coarsen(q, at(bf, levc))) = 1;
      }
    };
    for (int i : tags.IndexArray()) {
      const Box b = tags[i].box();
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x)
          if (tags[i]({x, y}) != TagBox::CLEAR) tag({x, y});
    }
    if (levf < new_finest) {
      const BoxArray& above = at(new_grids, levf + 1);
      for (int k = 0; k < above.size(); ++k) {
        Box b = amrex::coarsen(above[k], at(ref_ratio, levf));
        b.grow(n_proper).coarsen(at(ref_ratio, levc));
        for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
          for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x) tag({x, y});
      }
    }
    std::vector<int> a(mine.v.begin(), mine.v.end()), all(a.size());
    MPI_Allreduce(a.data(), all.data(), static_cast<int>(a.size()), MPI_INT, MPI_MAX, ParallelDescriptor::Communicator());
    Bits total(out.b);
    for (std::size_t i = 0; i < all.size(); ++i) total.v[i] = static_cast<char>(all[i] && !out.v[i]);
    std::vector<IntVect> cells;
    total.each([&](const IntVect& p) {
      if (total.get(p)) cells.push_back(p);
    });
    if (cells.empty()) continue;
    new_finest = std::max(new_finest, levf);
    std::vector<Box> clusters;
    cluster(total, cells, grid_eff, clusters);
    BoxList bl;
    for (const Box& b : clusters) {
      BoxList cut;
      BoxList bad;
      for (int y = b.smallEnd(1); y <= b.bigEnd(1); ++y)
        for (int x = b.smallEnd(0); x <= b.bigEnd(0); ++x)
          if (out.get({x, y})) bad.push_back(Box(IntVect(x, y), IntVect(x, y)));
      cut.complementIn(b, bad);
      cut.simplify();
      bl.join(cut);
    }
    bl.refine(at(bf, levc));
    bl.simplify();
    bl.intersect(g.Domain());
    bl.maxSize(max(at(max_grid_size, levf) / at(ref_ratio, levc), IntVect(1)));
    bl.refine(at(ref_ratio, levc));
    at(new_grids, levf).define(bl);
  }
}
void AmrMesh::MakeNewGrids(Real time) {
  {
    finest_level = 0;
    const BoxArray ba = MakeBaseGrids();
    const DistributionMapping dm = MakeDistributionMap(0, ba);
    const unsigned old = num_setdm;
    MakeNewLevelFromScratch(0, time, ba, dm);
    SetBoxArray(0, ba);
    if (old == num_setdm) SetDistributionMap(0, dm);
  }
  if (max_level <= 0) return;
  Vector<BoxArray> new_grids(static_cast<std::size_t>(max_level + 1));
  new_grids[0] = grids[0];
  do {
    int new_finest;
    MakeNewGrids(finest_level, time, new_finest, new_grids);
    if (new_finest <= finest_level) break;
    finest_level = new_finest;
    const BoxArray& ba = new_grids[static_cast<std::size_t>(new_finest)];
    const DistributionMapping dm = MakeDistributionMap(new_finest, ba);
    const unsigned old = num_setdm;
    MakeNewLevelFromScratch(new_finest, time, ba, dm);
    SetBoxArray(new_finest, ba);
    if (old == num_setdm) SetDistributionMap(new_finest, dm);
  } while (finest_level < max_level);
  if (!iterate_on_new_grids) return;
  for (int it = 0; it < 4; ++it) {
    for (int i = 1; i <= finest_level; ++i) new_grids[static_cast<std::size_t>(i)] = grids[static_cast<std::size_t>(i)];
    int new_finest;
    MakeNewGrids(0, time, new_finest, new_grids);
    if (new_finest < finest_level) break;
    finest_level = new_finest;
    bool same = true;
    for (int lev = 1; lev <= new_finest; ++lev) {
      const auto l = static_cast<std::size_t>(lev);
      if (new_grids[l] != grids[l]) {
        same = false;
        const DistributionMapping dm = MakeDistributionMap(lev, new_grids[l]);
        const unsigned old = num_setdm;
        MakeNewLevelFromScratch(lev, time, new_grids[l], dm);
        SetBoxArray(lev, new_grids[l]);
        if (old == num_setdm) SetDistributionMap(lev, dm);
      }
    }
    if (same) break;
  }
}
void AmrCore::regrid(int lbase, Real time, bool) {
  if (lbase >= max_level) return;
  int new_finest;
  Vector<BoxArray> new_grids(static_cast<std::size_t>(finest_level + 2));
  MakeNewGrids(lbase, time, new_finest, new_grids);
  if (new_finest > finest_level + 1) Abort("regrid: more than one new level");
  bool coarse_changed = false;
  for (int lev = lbase + 1; lev <= new_finest; ++lev) {
    const auto l = static_cast<std::size_t>(lev);
    if (lev <= finest_level) {
      const bool changed = new_grids[l] != grids[l];
      if (changed || coarse_changed) {
        BoxArray ba = grids[l];
        DistributionMapping dm = dmap[l];
        if (changed) {
          ba = new_grids[l];
          dm = MakeDistributionMap(lev, ba);
        }
        const unsigned old = num_setdm;
        RemakeLevel(lev, time, ba, dm);
        SetBoxArray(lev, ba);
        if (old == num_setdm) SetDistributionMap(lev, dm);
      }
      coarse_changed = changed;
    } else {
      const DistributionMapping dm = MakeDistributionMap(lev, new_grids[l]);
      const unsigned old = num_setdm;
      MakeNewLevelFromCoarse(lev, time, new_grids[l], dm);
      SetBoxArray(lev, new_grids[l]);
      if (old == num_setdm) SetDistributionMap(lev, dm);
    }
  }
  for (int lev = new_finest + 1; lev <= finest_level; ++lev) {
    ClearLevel(lev);
    ClearBoxArray(lev);
    ClearDistributionMap(lev);
  }
  finest_level = new_finest;
}

// ---------------------------------------------------------------- files
bool UtilCreateDirectory(const std::string& path, unsigned mode) {
  for (std::size_t i = 1; i <= path.size(); ++i)
    if (i == path.size() || path[i] == '/') {
      const std::string p = path.substr(0, i);
      if (mkdir(p.c_str(), mode) != 0 && errno != EEXIST) return false;
    }
  return true;
}
void PreBuildDirectorHierarchy(const std::string& dir, const std::string& prefix, int n, bool call_barrier) {
  if (ParallelDescriptor::IOProcessor()) {
    struct stat st;
    if (::stat(dir.c_str(), &st) == 0) {
      std::string old;
      for (int k = 0;; ++k) {
        old = dir + ".old." + std::to_string(k);
        if (::stat(old.c_str(), &st) != 0) break;
      }
      if (std::rename(dir.c_str(), old.c_str()) != 0) Abort("UtilRenameDirectoryToOld failed for " + dir);
    }
    if (!UtilCreateDirectory(dir, 0755)) Abort("Couldn't create directory: " + dir);
    for (int i = 0; i < n; ++i)
      if (!UtilCreateDirectory(dir + "/" + prefix + std::to_string(i), 0755)) Abort("Couldn't create directory: " + dir);
  }
  if (call_barrier) ParallelDescriptor::Barrier();
}
std::string MultiFabFileFullPrefix(int level, const std::string& dir, const std::string& prefix, const std::string& mf) {
  std::string r = dir;
  if (!r.empty() && r.back() != '/') r += '/';
  return r + prefix + std::to_string(level) + "/" + mf;
}
namespace {
std::string data_file(const std::string& name, int rank) {
  char b[16];
  std::snprintf(b, sizeof b, "_D_%05d", rank);
  return name + b;
}
} // namespace
long VisMF::Write(const MultiFab& mf, const std::string& name) {
  const int me = ParallelDescriptor::MyProc();
  if (!mf.IndexArray().empty()) {
    std::ofstream out(data_file(name, me), std::ios::out | std::ios::trunc | std::ios::binary);
    if (!out.good()) FileOpenFailed(data_file(name, me));
    for (int i : mf.IndexArray()) {
      const FArrayBox& f = mf[i];
      out.write(reinterpret_cast<const char*>(f.dataPtr()), f.size() * static_cast<long>(sizeof(Real)));
    }
    out.flush();
    if (!out.good()) Abort("VisMF::Write failed for " + name);
    out.close();
  }
  ParallelDescriptor::Barrier();
  if (ParallelDescriptor::IOProcessor()) {
    std::ofstream out(name + "_H", std::ios::out | std::ios::trunc);
    if (!out.good()) FileOpenFailed(name + "_H");
    out << "1\n" << mf.nComp() << '\n' << mf.nGrowVect() << '\n';
    mf.boxArray().writeOn(out);
    out << '\n';
    for (int i = 0; i < mf.boxArray().size(); ++i) out << mf.DistributionMap()[i] << '\n';
    out << "end\n";
    out.flush();
    if (!out.good()) Abort("VisMF::WriteHeader failed for " + name);
  }
  return 0;
}
void VisMF::Read(MultiFab& mf, const std::string& name) {
  Vector<char> buf;
  ParallelDescriptor::ReadAndBcastFile(name + "_H", buf);
  std::istringstream is(std::string(buf.data()));
  int version = 0, nc = 0;
  is >> version >> nc;
  const IntVect ng = read_iv(is);
  BoxArray ba;
  ba.readFrom(is);
  std::vector<int> file(static_cast<std::size_t>(ba.size()));
  for (int& f : file) is >> f;
  std::string end;
  is >> end;
  if (end != "end") Abort("VisMF::Read: incomplete header " + name);
  if (!mf.isDefined()) mf.define(ba, DistributionMapping(ba), nc, ng);
  if (!(mf.boxArray() == ba) || mf.nComp() != nc) Abort("VisMF::Read: different layout in " + name);
  for (int i : mf.IndexArray()) {
    const int r = file[static_cast<std::size_t>(i)];
    long off = 0;
    for (int k = 0; k < i; ++k)
      if (file[static_cast<std::size_t>(k)] == r) off += amrex::grow(ba[k], ng).numPts() * nc;
    std::ifstream in(data_file(name, r), std::ios::in | std::ios::binary);
    if (!in.good()) FileOpenFailed(data_file(name, r));
    FArrayBox f(amrex::grow(ba[i], ng), nc);
    in.seekg(off * static_cast<long>(sizeof(Real)));
    in.read(reinterpret_cast<char*>(f.dataPtr()), f.size() * static_cast<long>(sizeof(Real)));
    if (in.gcount() != f.size() * static_cast<long>(sizeof(Real))) Abort("VisMF::Read: incomplete data of " + name);
    mf[i].copy(f, f.box() & mf[i].box(), IntVect(0), 0, 0, nc);
  }
}
void WriteMultiLevelPlotfile(const std::string& name, int nlevels, const Vector<const MultiFab*>& mf, const Vector<std::string>& varnames, const Vector<Geometry>& geom, Real time, const Vector<int>& level_steps, const Vector<IntVect>& ref_ratio,
                             const std::string& version, const std::string& level_prefix, const std::string& mf_prefix, const Vector<std::string>& extra_dirs) {
  PreBuildDirectorHierarchy(name, level_prefix, nlevels, true);
  for (auto& d : extra_dirs) PreBuildDirectorHierarchy(name + "/" + d, level_prefix, nlevels, true);
  if (ParallelDescriptor::IOProcessor()) {
    std::ofstream out(name + "/Header", std::ios::out | std::ios::trunc);
    if (!out.good()) FileOpenFailed(name + "/Header");
    out << std::setprecision(17) << version << '\n' << varnames.size() << '\n';
    for (auto& v : varnames) out << v << '\n';
    out << AMREX_SPACEDIM << '\n' << time << '\n' << nlevels - 1 << '\n';
    for (int d = 0; d < 2; ++d) out << geom[0].ProbLo(d) << ' ';
    out << '\n';
    for (int d = 0; d < 2; ++d) out << geom[0].ProbHi(d) << ' ';
    out << '\n';
    for (int i = 0; i + 1 < nlevels; ++i) out << ref_ratio[static_cast<std::size_t>(i)][0] << ' ';
    out << '\n';
    for (int i = 0; i < nlevels; ++i) out << geom[static_cast<std::size_t>(i)].Domain() << ' ';
    out << '\n';
    for (int i = 0; i < nlevels; ++i) out << level_steps[static_cast<std::size_t>(i)] << ' ';
    out << '\n';
    out.flush();
    if (!out.good()) Abort("WriteMultiLevelPlotfile failed");
  }
  for (int i = 0; i < nlevels; ++i) VisMF::Write(*mf[static_cast<std::size_t>(i)], MultiFabFileFullPrefix(i, name, level_prefix, mf_prefix));
}
} // namespace amrex
