// A simulated MPI library: ranks are tasks of the simulator, every collective
// and message passes through here, and the schedule decides who arrives when.
// Mismatching collectives and operations that never complete are violations.
#include "sim.hpp"

#include <algorithm>
#include <deque>
#include <memory>
#include <mpi.h>

namespace sim {
namespace {

struct Coll {
  std::string op;       // name, must agree
  std::string sig;      // root/type/op, must agree
  std::vector<char> present;
  std::vector<char> left;
  std::vector<std::vector<char>> data; // contributions
  std::vector<std::size_t> counts;
  int n_present = 0;
  std::vector<char> result;
  bool reduced = false;
};

struct Comm {
  int id;
  std::vector<int> ranks;             // world ranks
  std::vector<long long> seq;         // next collective per member
  std::vector<char> freed;
  std::map<long long, std::unique_ptr<Coll>> colls;
  // created by a collective on a parent: key (parent id, seq)
};

struct Message {
  int src, dst, tag, comm;
  std::vector<char> data;
  bool taken = false;
};

struct Request {
  bool done = false;
  std::function<bool()> ready;
  std::function<void()> complete;
  MPI_Status status{};
};

struct World {
  int n = 1;
  std::vector<std::unique_ptr<Comm>> comms;
  std::deque<Message> mail;
  std::vector<std::vector<std::string>> log;
  std::vector<int> init;
  std::vector<int> finalized;
  bool sync_mode = false; // sends and rooted collectives wait for the peers
  double delay_p = 0;
  std::map<std::pair<int, long long>, Comm*> derived;
};
World* w = nullptr;

World& world() {
  if (!w) {
    mpi_init(1);
  }
  return *w;
}

Comm* get(MPI_Comm c, const char* op) {
  World& W = world();
  if (c == MPI_COMM_WORLD) {
    return W.comms[0].get();
  }
  if (c == MPI_COMM_SELF) {
    return W.comms[1 + static_cast<std::size_t>(current_rank())].get();
  }
  for (auto& x : W.comms) {
    if (reinterpret_cast<MPI_Comm>(x.get()) == c) {
      return x.get();
    }
  }
  violate("mpi-invalid-communicator", "%s called with an invalid communicator",
          op);
}

int member(Comm* c) {
  for (std::size_t i = 0; i < c->ranks.size(); ++i) {
    if (c->ranks[i] == current_rank()) {
      return static_cast<int>(i);
    }
  }
  violate("mpi-invalid-communicator", "rank %d is not a member of the "
          "communicator it uses", current_rank());
}

std::size_t size_of(MPI_Datatype t) {
  if (t == MPI_DOUBLE || t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT ||
      t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG ||
      t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_AINT || t == MPI_COUNT ||
      t == MPI_OFFSET) {
    return 8;
  }
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T ||
      t == MPI_UINT32_T) {
    return 4;
  }
  if (t == MPI_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_SIGNED_CHAR ||
      t == MPI_BYTE || t == MPI_C_BOOL || t == MPI_CXX_BOOL ||
      t == MPI_INT8_T || t == MPI_UINT8_T) {
    return 1;
  }
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT || t == MPI_INT16_T ||
      t == MPI_UINT16_T) {
    return 2;
  }
  if (t == MPI_2INT) {
    return 8;
  }
  if (t == MPI_DOUBLE_INT || t == MPI_LONG_DOUBLE) {
    return 16;
  }
  harness_error("simulated MPI: unknown datatype");
}

const char* type_name(MPI_Datatype t) {
  if (t == MPI_DOUBLE) return "double";
  if (t == MPI_FLOAT) return "float";
  if (t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_BYTE ||
      t == MPI_UNSIGNED_CHAR || t == MPI_INT8_T || t == MPI_UINT8_T)
    return "char";
  if (t == MPI_C_BOOL || t == MPI_CXX_BOOL) return "bool";
  if (t == MPI_INT || t == MPI_INT32_T) return "int";
  if (t == MPI_UNSIGNED || t == MPI_UINT32_T) return "unsigned";
  if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT ||
      t == MPI_INT64_T || t == MPI_COUNT || t == MPI_AINT || t == MPI_OFFSET)
    return "long";
  if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T)
    return "ulong";
  if (t == MPI_SHORT || t == MPI_INT16_T) return "short";
  if (t == MPI_DOUBLE_INT) return "double_int";
  if (t == MPI_2INT) return "2int";
  harness_error("simulated MPI: unsupported datatype in a reduction");
}

const char* op_name(MPI_Op o) {
  if (o == MPI_MIN) return "min";
  if (o == MPI_MAX) return "max";
  if (o == MPI_SUM) return "sum";
  if (o == MPI_PROD) return "prod";
  if (o == MPI_LAND) return "land";
  if (o == MPI_LOR) return "lor";
  if (o == MPI_BAND) return "band";
  if (o == MPI_BOR) return "bor";
  if (o == MPI_MINLOC) return "minloc";
  if (o == MPI_MAXLOC) return "maxloc";
  harness_error("simulated MPI: unsupported reduction");
}

template <typename T>
void apply_t(const std::string& op, T* a, const T* b, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i) {
    if (op == "min") a[i] = b[i] < a[i] ? b[i] : a[i];
    else if (op == "max") a[i] = a[i] < b[i] ? b[i] : a[i];
    else if (op == "sum") a[i] = static_cast<T>(a[i] + b[i]);
    else if (op == "prod") a[i] = static_cast<T>(a[i] * b[i]);
    else if (op == "land") a[i] = a[i] && b[i];
    else if (op == "lor") a[i] = a[i] || b[i];
    else if constexpr (std::is_integral_v<T>) {
      if (op == "band") a[i] = static_cast<T>(a[i] & b[i]);
      else if (op == "bor") a[i] = static_cast<T>(a[i] | b[i]);
      else harness_error("simulated MPI: bad reduction");
    } else {
      harness_error("simulated MPI: bad reduction");
    }
  }
}
template <typename V> void loc_t(const std::string& op, char* a, const char* b, std::size_t n) {
  struct P { V v; int i; };
  P* x = reinterpret_cast<P*>(a);
  const P* y = reinterpret_cast<const P*>(b);
  for (std::size_t k = 0; k < n; ++k) {
    const bool less = op == "minloc" ? y[k].v < x[k].v : y[k].v > x[k].v;
    if (less || (y[k].v == x[k].v && y[k].i < x[k].i)) x[k] = y[k];
  }
}

void apply(const std::string& type, const std::string& op, char* a,
           const char* b, std::size_t bytes) {
  if (op == "minloc" || op == "maxloc") {
    if (type == "double_int") return loc_t<double>(op, a, b, bytes / 16);
    return loc_t<int>(op, a, b, bytes / 8);
  }
#define A(NAME, T)                                                             \
  if (type == NAME)                                                            \
    return apply_t(op, reinterpret_cast<T*>(a), reinterpret_cast<const T*>(b), \
                   bytes / sizeof(T));
  A("double", double)
  A("float", float)
  A("char", signed char)
  A("bool", unsigned char)
  A("int", int)
  A("unsigned", unsigned)
  A("long", long)
  A("ulong", unsigned long)
  A("short", short)
#undef A
  harness_error("simulated MPI: bad reduction type %s", type.c_str());
}

void maybe_delay() {
  World& W = world();
  if (W.n > 1) {
    if (W.delay_p > 0 && chance(W.delay_p, "mpi-delay")) {
      advance_ns(range(1, 1000000, "mpi-delay-ns"));
      count("message delays");
    }
    yield("mpi");
  }
}

/// Joins collective number seq[me] of comm; checks that it matches. The caller
/// gets the Coll; when_complete says whose presence it must await.
Coll& enter(Comm* c, int me, const std::string& op, const std::string& sig,
            const void* data, std::size_t bytes) {
  World& W = world();
  maybe_delay();
  const long long s = c->seq[static_cast<std::size_t>(me)]++;
  auto& slot = c->colls[s];
  if (!slot) {
    slot = std::make_unique<Coll>();
    slot->op = op;
    slot->sig = sig;
    slot->present.assign(c->ranks.size(), 0);
    slot->left.assign(c->ranks.size(), 0);
    slot->data.resize(c->ranks.size());
    slot->counts.assign(c->ranks.size(), 0);
  }
  W.log[static_cast<std::size_t>(current_rank())].push_back(op + "(" + sig + ")");
  event("mpi %s(%s) comm %d #%lld", op.c_str(), sig.c_str(), c->id, s);
  if (slot->op != op || slot->sig != sig) {
    violate("collective-mismatch",
            "collective number %lld on communicator %d: rank %d calls %s(%s) "
            "while another rank called %s(%s)",
            s, c->id, current_rank(), op.c_str(), sig.c_str(),
            slot->op.c_str(), slot->sig.c_str());
  }
  slot->present[static_cast<std::size_t>(me)] = 1;
  slot->n_present += 1;
  slot->counts[static_cast<std::size_t>(me)] = bytes;
  if (bytes && data) {
    const char* p = static_cast<const char*>(data);
    slot->data[static_cast<std::size_t>(me)].assign(p, p + bytes);
  }
  count("mpi collectives");
  return *slot;
}

void leave(Comm* c, int me, Coll& coll) {
  coll.left[static_cast<std::size_t>(me)] = 1;
  if (std::all_of(coll.left.begin(), coll.left.end(), [](char x) { return x; })) {
    for (auto it = c->colls.begin(); it != c->colls.end(); ++it) {
      if (it->second.get() == &coll) {
        c->colls.erase(it);
        break;
      }
    }
  }
}

void await_all(Comm* c, Coll& coll, const std::string& what) {
  block_until([&] { return coll.n_present == static_cast<int>(c->ranks.size()); },
              what.c_str());
}
void await_one(Coll& coll, int r, const std::string& what) {
  block_until([&] { return coll.present[static_cast<std::size_t>(r)] != 0; },
              what.c_str());
}

std::vector<char> reduce_all(Coll& coll, const std::string& type,
                             const std::string& op, std::size_t upto) {
  std::vector<char> acc = coll.data[0];
  for (std::size_t r = 1; r < upto; ++r) {
    apply(type, op, acc.data(), coll.data[r].data(), acc.size());
  }
  return acc;
}

std::string sig(const char* t, const char* o, int n, int root) {
  char b[128];
  std::snprintf(b, sizeof b, "%s%s%s,n=%d%s", t ? t : "", o ? "," : "",
                o ? o : "", n,
                root >= 0 ? (",root=" + std::to_string(root)).c_str() : "");
  return b;
}

bool in_task() { return active(); }

} // namespace

void mpi_init(int nranks) {
  delete w;
  w = new World();
  w->n = nranks;
  w->log.resize(static_cast<std::size_t>(nranks));
  w->init.assign(static_cast<std::size_t>(nranks), 1);
  w->finalized.assign(static_cast<std::size_t>(nranks), 0);
  auto add = [&](std::vector<int> ranks) {
    auto c = std::make_unique<Comm>();
    c->id = static_cast<int>(w->comms.size());
    c->ranks = std::move(ranks);
    c->seq.assign(c->ranks.size(), 0);
    c->freed.assign(c->ranks.size(), 0);
    w->comms.push_back(std::move(c));
  };
  std::vector<int> all;
  for (int i = 0; i < nranks; ++i) all.push_back(i);
  add(all);
  for (int i = 0; i < nranks; ++i) add({i});
  if (nranks > 1 && in_task()) {
    w->sync_mode = chance(0.4, "mpi-sync");
    static const double p[] = {0, 0, 0.05, 0.3};
    w->delay_p = p[choose(4, "mpi-delay-p")];
  }
}

int mpi_size() { return world().n; }
const std::vector<std::string>& mpi_log(int rank) {
  return world().log[static_cast<std::size_t>(rank)];
}

} // namespace sim

using namespace sim;

extern "C" {

int MPI_Init(int*, char***) {
  world().init[static_cast<std::size_t>(current_rank())] = 1;
  return MPI_SUCCESS;
}
int MPI_Init_thread(int*, char***, int required, int* provided) {
  *provided = required;
  return MPI_Init(nullptr, nullptr);
}
int MPI_Initialized(int* f) {
  *f = world().init[static_cast<std::size_t>(current_rank())];
  return MPI_SUCCESS;
}
int MPI_Finalized(int* f) {
  *f = world().finalized[static_cast<std::size_t>(current_rank())];
  return MPI_SUCCESS;
}
int MPI_Finalize() {
  world().finalized[static_cast<std::size_t>(current_rank())] = 1;
  return MPI_SUCCESS;
}
int MPI_Query_thread(int* p) {
  *p = MPI_THREAD_MULTIPLE;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
  violate("mpi-abort", "rank %d calls MPI_Abort(%d)", current_rank(), code);
}
int MPI_Comm_rank(MPI_Comm c, int* r) {
  *r = member(get(c, "MPI_Comm_rank"));
  return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* n) {
  *n = static_cast<int>(get(c, "MPI_Comm_size")->ranks.size());
  return MPI_SUCCESS;
}
double MPI_Wtime() { return 1e-9 * static_cast<double>(clock_ns(current_rank())); }
double MPI_Wtick() { return 1e-9; }
int MPI_Type_size(MPI_Datatype t, int* s) {
  *s = static_cast<int>(size_of(t));
  return MPI_SUCCESS;
}
int MPI_Get_processor_name(char* name, int* len) {
  std::strcpy(name, "simulated");
  *len = 9;
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm comm) {
  Comm* c = get(comm, "MPI_Barrier");
  const int me = member(c);
  Coll& k = enter(c, me, "Barrier", "", nullptr, 0);
  await_all(c, k, "MPI_Barrier");
  leave(c, me, k);
  return MPI_SUCCESS;
}

int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm comm) {
  Comm* c = get(comm, "MPI_Bcast");
  const int me = member(c);
  const std::size_t bytes = static_cast<std::size_t>(n) * size_of(t);
  if (n < 0 || root < 0 || root >= static_cast<int>(c->ranks.size())) {
    violate("mpi-invalid-argument", "MPI_Bcast with count %d and root %d", n, root);
  }
  Coll& k = enter(c, me, "Bcast", "bytes=" + std::to_string(bytes) + ",root=" +
                  std::to_string(root), me == root ? buf : nullptr, bytes);
  const std::string what = "MPI_Bcast(root " + std::to_string(root) + ")";
  if (me != root) {
    await_one(k, root, what);
    if (bytes) std::memcpy(buf, k.data[static_cast<std::size_t>(root)].data(), bytes);
  } else if (world().sync_mode) {
    await_all(c, k, what);
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}

static int reduce_impl(const char* name, const void* s, void* r, int n,
                       MPI_Datatype t, MPI_Op o, int root, MPI_Comm comm,
                       bool prefix, bool exclusive) {
  Comm* c = get(comm, name);
  const int me = member(c);
  if (n < 0) violate("mpi-invalid-argument", "%s with count %d", name, n);
  const std::size_t bytes = static_cast<std::size_t>(n) * size_of(t);
  const void* src = s == MPI_IN_PLACE ? r : s;
  if (s != MPI_IN_PLACE && s == r && bytes) {
    violate("mpi-invalid-argument", "%s: send and receive buffer are aliased", name);
  }
  Coll& k = enter(c, me, name, sig(type_name(t), op_name(o), n, root), src, bytes);
  const bool gets = root < 0 || root == me;
  if (prefix) {
    for (int q = 0; q <= me; ++q) await_one(k, q, name);
    const std::size_t upto = static_cast<std::size_t>(exclusive ? me : me + 1);
    if (upto > 0 && bytes) {
      std::vector<char> v = reduce_all(k, type_name(t), op_name(o), upto);
      std::memcpy(r, v.data(), bytes);
    }
  } else if (gets) {
    await_all(c, k, name);
    if (bytes) {
      std::vector<char> v = reduce_all(k, type_name(t), op_name(o), c->ranks.size());
      std::memcpy(r, v.data(), bytes);
    }
  } else if (world().sync_mode) {
    await_all(c, k, name);
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}

int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
  return reduce_impl("Reduce", s, r, n, t, o, root, c, false, false);
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  return reduce_impl("Allreduce", s, r, n, t, o, -1, c, false, false);
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  return reduce_impl("Scan", s, r, n, t, o, -1, c, true, false);
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  return reduce_impl("Exscan", s, r, n, t, o, -1, c, true, true);
}

static int gather_impl(const char* name, const void* s, int sn, MPI_Datatype st,
                       void* r, const int* rns, int rn, const int* displs,
                       MPI_Datatype rt, int root, MPI_Comm comm) {
  Comm* c = get(comm, name);
  const int me = member(c);
  const bool gets = root < 0 || root == me;
  std::size_t bytes = 0;
  const void* src = s;
  if (s == MPI_IN_PLACE) {
    bytes = static_cast<std::size_t>(rns ? rns[me] : rn) * size_of(rt);
    src = static_cast<char*>(r) +
          (displs ? static_cast<std::size_t>(displs[me]) * size_of(rt)
                  : static_cast<std::size_t>(me) * bytes);
  } else {
    bytes = static_cast<std::size_t>(sn) * size_of(st);
  }
  std::string sg = root >= 0 ? "root=" + std::to_string(root) : "";
  if (!rns) sg += ",bytes=" + std::to_string(bytes);
  Coll& k = enter(c, me, name, sg, src, bytes);
  if (gets) {
    await_all(c, k, name);
    for (std::size_t q = 0; q < c->ranks.size(); ++q) {
      const std::size_t want = static_cast<std::size_t>(rns ? rns[q] : rn) * size_of(rt);
      if (k.counts[q] > want) {
        violate("mpi-truncation", "%s: rank %zu sends %zu bytes, rank %d expects %zu",
                name, q, k.counts[q], me, want);
      }
      const std::size_t off = displs ? static_cast<std::size_t>(displs[q]) * size_of(rt) : q * want;
      if (k.counts[q]) std::memcpy(static_cast<char*>(r) + off, k.data[q].data(), k.counts[q]);
    }
  } else if (world().sync_mode) {
    await_all(c, k, name);
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}

int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  return gather_impl("Gather", s, sn, st, r, nullptr, rn, nullptr, rt, root, c);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  return gather_impl("Allgather", s, sn, st, r, nullptr, rn, nullptr, rt, -1, c);
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, int root, MPI_Comm c) {
  static const int none[256] = {0};
  const bool gets = member(get(c, "MPI_Gatherv")) == root;
  return gather_impl("Gatherv", s, sn, st, r, gets ? rn : none, 0, d, rt, root, c);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c) {
  return gather_impl("Allgatherv", s, sn, st, r, rn, 0, d, rt, -1, c);
}

static int scatter_impl(const char* name, const void* s, const int* sns, int sn,
                        const int* displs, MPI_Datatype st, void* r, int rn,
                        MPI_Datatype rt, int root, MPI_Comm comm) {
  Comm* c = get(comm, name);
  const int me = member(c);
  const std::string sg = "root=" + std::to_string(root);
  Coll& k = enter(c, me, name, sg, nullptr, 0);
  if (me == root) {
    for (std::size_t q = 0; q < c->ranks.size(); ++q) {
      const std::size_t b = static_cast<std::size_t>(sns ? sns[q] : sn) * size_of(st);
      const std::size_t off = displs ? static_cast<std::size_t>(displs[q]) * size_of(st) : q * b;
      const char* p = static_cast<const char*>(s) + off;
      k.data[q].assign(p, p + b);
    }
    k.reduced = true;
    if (world().sync_mode) await_all(c, k, name);
  }
  block_until([&] { return k.reduced; }, name);
  if (r != MPI_IN_PLACE) {
    const std::size_t want = static_cast<std::size_t>(rn) * size_of(rt);
    const auto& d = k.data[static_cast<std::size_t>(me)];
    if (d.size() > want) violate("mpi-truncation", "%s: %zu bytes for %zu", name, d.size(), want);
    if (!d.empty()) std::memcpy(r, d.data(), d.size());
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  return scatter_impl("Scatter", s, nullptr, sn, nullptr, st, r, rn, rt, root, c);
}
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  return scatter_impl("Scatterv", s, sn, 0, d, st, r, rn, rt, root, c);
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm comm) {
  Comm* c = get(comm, "MPI_Alltoall");
  const int me = member(c);
  const std::size_t b = static_cast<std::size_t>(sn) * size_of(st);
  const std::size_t rb = static_cast<std::size_t>(rn) * size_of(rt);
  Coll& k = enter(c, me, "Alltoall", "bytes=" + std::to_string(b), s, b * c->ranks.size());
  await_all(c, k, "MPI_Alltoall");
  for (std::size_t q = 0; q < c->ranks.size(); ++q) {
    std::memcpy(static_cast<char*>(r) + q * rb, k.data[q].data() + static_cast<std::size_t>(me) * b, std::min(b, rb));
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}

int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out) {
  Comm* c = get(comm, "MPI_Comm_dup");
  const int me = member(c);
  const long long s = c->seq[static_cast<std::size_t>(me)];
  Coll& k = enter(c, me, "Comm_dup", "", nullptr, 0);
  await_all(c, k, "MPI_Comm_dup");
  auto& d = world().derived[{c->id, s}];
  if (!d) {
    auto n = std::make_unique<Comm>();
    n->id = static_cast<int>(world().comms.size());
    n->ranks = c->ranks;
    n->seq.assign(n->ranks.size(), 0);
    n->freed.assign(n->ranks.size(), 0);
    d = n.get();
    world().comms.push_back(std::move(n));
  }
  *out = reinterpret_cast<MPI_Comm>(d);
  leave(c, me, k);
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* comm) {
  Comm* c = get(*comm, "MPI_Comm_free");
  c->freed[static_cast<std::size_t>(member(c))] = 1;
  *comm = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out) {
  Comm* c = get(comm, "MPI_Comm_split");
  const int me = member(c);
  const long long s = c->seq[static_cast<std::size_t>(me)];
  const int ck[2] = {color, key};
  Coll& k = enter(c, me, "Comm_split", "", ck, sizeof ck);
  await_all(c, k, "MPI_Comm_split");
  if (color == MPI_UNDEFINED) {
    *out = MPI_COMM_NULL;
  } else {
    auto& d = world().derived[{c->id * 1000 + color, s}];
    if (!d) {
      std::vector<std::pair<int, int>> m;
      for (std::size_t q = 0; q < c->ranks.size(); ++q) {
        int v[2];
        std::memcpy(v, k.data[q].data(), sizeof v);
        if (v[0] == color) m.push_back({v[1], c->ranks[q]});
      }
      std::stable_sort(m.begin(), m.end(), [](auto a, auto b) { return a.first < b.first; });
      auto n = std::make_unique<Comm>();
      n->id = static_cast<int>(world().comms.size());
      for (auto& x : m) n->ranks.push_back(x.second);
      n->seq.assign(n->ranks.size(), 0);
      n->freed.assign(n->ranks.size(), 0);
      d = n.get();
      world().comms.push_back(std::move(n));
    }
    *out = reinterpret_cast<MPI_Comm>(d);
  }
  leave(c, me, k);
  return MPI_SUCCESS;
}

// ------------------------------------------------------------ point to point
static void set_status(MPI_Status* st, int src, int tag, std::size_t bytes) {
  if (st != MPI_STATUS_IGNORE && st) {
    st->MPI_SOURCE = src;
    st->MPI_TAG = tag;
    st->MPI_ERROR = MPI_SUCCESS;
    st->_ucount = bytes;
  }
}
static Message* find_mail(int dst, int src, int tag, int comm) {
  for (auto& m : world().mail) {
    if (!m.taken && m.dst == dst && m.comm == comm && (src == MPI_ANY_SOURCE || m.src == src) &&
        (tag == MPI_ANY_TAG || m.tag == tag)) {
      return &m;
    }
  }
  return nullptr;
}
static int send(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, bool rendezvous) {
  Comm* c = get(comm, "MPI_Send");
  const int me = member(c);
  maybe_delay();
  const char* p = static_cast<const char*>(buf);
  const std::size_t b = static_cast<std::size_t>(n) * size_of(t);
  world().mail.push_back(Message{me, dst, tag, c->id, std::vector<char>(p, p + b)});
  Message& m = world().mail.back();
  event("mpi send %d->%d tag %d bytes %zu", me, dst, tag, b);
  world().log[static_cast<std::size_t>(current_rank())].push_back("Send");
  count("mpi messages");
  if (rendezvous) block_until([&] { return m.taken; }, "MPI_Send");
  return MPI_SUCCESS;
}
int MPI_Send(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm) {
  return send(buf, n, t, dst, tag, comm, world().sync_mode);
}
int MPI_Ssend(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm) {
  return send(buf, n, t, dst, tag, comm, true);
}
int MPI_Recv(void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* st) {
  Comm* c = get(comm, "MPI_Recv");
  const int me = member(c);
  maybe_delay();
  block_until([&] { return find_mail(me, src, tag, c->id) != nullptr; }, "MPI_Recv");
  Message* m = find_mail(me, src, tag, c->id);
  const std::size_t b = static_cast<std::size_t>(n) * size_of(t);
  if (m->data.size() > b) violate("mpi-truncation", "MPI_Recv: %zu bytes for %zu", m->data.size(), b);
  if (!m->data.empty()) std::memcpy(buf, m->data.data(), m->data.size());
  m->taken = true;
  event("mpi recv %d<-%d tag %d", me, m->src, m->tag);
  set_status(st, m->src, m->tag, m->data.size());
  return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
  Comm* c = get(comm, "MPI_Probe");
  const int me = member(c);
  block_until([&] { return find_mail(me, src, tag, c->id) != nullptr; }, "MPI_Probe");
  Message* m = find_mail(me, src, tag, c->id);
  set_status(st, m->src, m->tag, m->data.size());
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
  *n = static_cast<int>(st->_ucount / size_of(t));
  return MPI_SUCCESS;
}
int MPI_Isend(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* rq) {
  send(buf, n, t, dst, tag, comm, false);
  auto* r = new Request();
  r->ready = [] { return true; };
  r->complete = [] {};
  *rq = reinterpret_cast<MPI_Request>(r);
  return MPI_SUCCESS;
}
int MPI_Irecv(void* buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* rq) {
  Comm* c = get(comm, "MPI_Irecv");
  const int me = member(c);
  auto* r = new Request();
  r->ready = [=] { return find_mail(me, src, tag, c->id) != nullptr; };
  r->complete = [=] { MPI_Recv(buf, n, t, src, tag, comm, &r->status); };
  *rq = reinterpret_cast<MPI_Request>(r);
  return MPI_SUCCESS;
}
static int icoll(std::function<void()> start_and_finish, MPI_Request* rq) {
  // A non-blocking collective completes at the latest in its wait.
  auto* r = new Request();
  start_and_finish();
  r->ready = [] { return true; };
  r->complete = [] {};
  *rq = reinterpret_cast<MPI_Request>(r);
  return MPI_SUCCESS;
}
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* rq) {
  return icoll([=] { MPI_Allreduce(s, r, n, t, o, c); }, rq);
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* rq) {
  return icoll([=] { MPI_Bcast(b, n, t, root, c); }, rq);
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* rq) {
  return icoll([=] { MPI_Barrier(c); }, rq);
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) return MPI_SUCCESS;
  auto* r = reinterpret_cast<Request*>(*rq);
  block_until(r->ready, "MPI_Wait");
  r->complete();
  if (st != MPI_STATUS_IGNORE && st) *st = r->status;
  delete r;
  *rq = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) {
  for (int i = 0; i < n; ++i) MPI_Wait(rq + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  yield("MPI_Test");
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
  auto* r = reinterpret_cast<Request*>(*rq);
  *flag = r->ready();
  return *flag ? MPI_Wait(rq, st) : MPI_SUCCESS;
}
int MPI_Sendrecv(const void* s, int sn, MPI_Datatype stp, int dst, int stag, void* r, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request q;
  MPI_Isend(s, sn, stp, dst, stag, c, &q);
  MPI_Recv(r, rn, rt, src, rtag, c, st);
  return MPI_Wait(&q, MPI_STATUS_IGNORE);
}

} // extern "C"
