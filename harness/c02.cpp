// C02: results depend on the arguments only.
//
// An event is (operation, arguments) -> digest of the result. The reference digest of an event comes
// from a process that has executed nothing but this call. The monitor compares it with the digest of the
// same event in sequential, reversed, shuffled and repeated histories and in concurrent histories on
// shared objects, and watches the inputs and the floating point environment.
// Built with ThreadSanitizer (C02_TSAN) only the concurrent part runs.
#include "ops.h"

#include <cfenv>
#include <sys/wait.h>
#include <thread>
#if defined(__SSE__)
#include <xmmintrin.h>
#endif

namespace {
struct Event {
  size_t op;
  uint64_t seed;
  int mode;
  int flip;
  uint64_t ref;
};

unsigned fp_control() {
#if defined(__SSE__)
  return _mm_getcsr() & ~0x3fu; // without the exception flags
#else
  return unsigned(std::fegetround());
#endif
}

const ops::Table* table;
const ops::Shared* shared;
unsigned fp0;

struct Verdict {
  bool differs, mutated, fpenv, contract;
};
Verdict judge(const Event& e) {
  const auto o = ops::execute(table->ops[e.op], e.seed, e.mode, shared, e.flip);
  return {o.h != e.ref, o.mutated, fp_control() != fp0, o.contract};
}
std::string describe(const Event& e) {
  std::ostringstream s;
  s << table->ops[e.op].name << " seed " << e.seed << " mode " << e.mode << " flip " << e.flip;
  return s.str();
}
void report(const Verdict& v, const Event& e, const char* history) {
  auto& st = mon::st();
  const auto& name = table->ops[e.op].name;
  st.group_name = "history";
  ++st.evaluations;
  st.nontrivial += !v.contract;
  if (v.contract) {
    OBS("arguments outside the contract");
  } else {
    OBS(history);
  }
  CHK(!v.differs, (name + " differs").c_str(), history << ": " << describe(e) << ", result compared with that of a fresh process");
  CHK(!v.mutated, (name + " modifies its input").c_str(), history << ": " << describe(e));
  CHK(!v.fpenv, (name + " changes the floating point environment").c_str(), history << ": " << describe(e));
}

// reference digests, one process per event
void references(std::vector<Event>& events) {
  size_t i = 0;
  while (i < events.size()) {
    // a batch of children, each executes one call
    constexpr size_t Batch = 64;
    const size_t n = std::min(Batch, events.size() - i);
    int fd[2];
    if (::pipe(fd) != 0) std::exit(5);
    std::vector<pid_t> pids;
    for (size_t k = 0; k < n; ++k) {
      const pid_t pid = ::fork();
      if (pid < 0) std::exit(5);
      if (pid == 0) {
        const auto& e = events[i + k];
        const auto o = ops::execute(table->ops[e.op], e.seed, e.mode, shared, e.flip);
        const uint64_t msg[2] = {uint64_t(k), o.h};
        ::_exit(::write(fd[1], msg, sizeof msg) == ssize_t(sizeof msg) ? 0 : 6);
      }
      pids.push_back(pid);
    }
    ::close(fd[1]);
    uint64_t msg[2];
    size_t got = 0;
    while (::read(fd[0], msg, sizeof msg) == ssize_t(sizeof msg)) {
      events[i + msg[0]].ref = msg[1];
      ++got;
    }
    ::close(fd[0]);
    for (size_t k = 0; k < n; ++k) {
      int status = 0;
      ::waitpid(pids[k], &status, 0);
      if (status != 0) {
        mon::st().group_name = "history";
        mon::st().checks++;
        mon::fail("crash", describe(events[i + k]) + " does not return");
      }
    }
    if (got != n && mon::st().violations.empty()) std::exit(5);
    i += n;
  }
}

// the operations that take lists, found out by another process
std::vector<size_t> lengthy() {
  std::vector<size_t> r;
  int fd[2];
  if (::pipe(fd) != 0) std::exit(5);
  const pid_t pid = ::fork();
  if (pid < 0) std::exit(5);
  if (pid == 0) {
    for (size_t i = 0; i < table->ops.size(); ++i)
      if (ops::execute(table->ops[i], 1, 3, shared).longer && ::write(fd[1], &i, sizeof i) != ssize_t(sizeof i)) ::_exit(6);
    ::_exit(0);
  }
  ::close(fd[1]);
  size_t i;
  while (::read(fd[0], &i, sizeof i) == ssize_t(sizeof i)) r.push_back(i);
  ::close(fd[0]);
  int status = 0;
  ::waitpid(pid, &status, 0);
  return r;
}

std::vector<Event> make_events(uint64_t seed, size_t stripe, size_t stripes, int bases) {
  std::vector<Event> ev;
  mon::Rng g(mon::mix64(seed + 99) + stripe);
  for (size_t op = stripe; op < table->ops.size(); op += stripes) {
    for (int mode = 0; mode < 3; ++mode) {
      for (int b = 0; b < bases; ++b) {
        const uint64_t s = g.u64();
        const int flips[] = {-1, 0, 1, 2, 3, int(g.below(6)), int(g.below(12)), int(g.below(24))};
        for (const int f : flips) ev.push_back({op, s, mode, f, 0});
        // nearly the same arguments
        ev.push_back({op, s, mode, -1, 0});
        for (int k = 1; k < 8; ++k) ev.push_back({op, s, mode, int(g.below(k < 4 ? 8 : 24)) + 100 * int(1 + g.below(3)), 0});
      }
    }
  }
  // long lists: few at first, so that short ones come before, between and after
  for (const size_t op : lengthy()) {
    if (op % stripes != stripe) continue;
    for (int b = 0; b < 2 * bases; ++b) {
      const uint64_t s = g.u64();
      for (const int f : {-1, 0, 1, int(g.below(24))}) ev.push_back({op, s, 3, f, 0});
    }
    for (int b = 0; b < 4; ++b) ev.push_back({op, g.u64(), 0, -1, 0});
  }
  return ev;
}

// an unjudged call of any operation
void distract(mon::Rng& g) {
  ops::execute(table->ops[g.below(table->ops.size())], g.u64(), int(g.below(3)), shared);
}

void concurrent(const std::vector<Event>& events, uint64_t seed, size_t threads, int rounds, bool judged) {
  struct Bad {
    Verdict v;
    size_t event;
  };
  std::vector<std::vector<Bad>> bad(threads);
  std::vector<uint64_t> count(threads), overlap(threads);
  std::atomic<size_t> position{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> pool;
  for (size_t t = 0; t < threads; ++t) {
    pool.emplace_back([&, t] {
      mon::Rng g(mon::mix64(seed * 31 + t));
      while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
      for (int r = 0; r < rounds; ++r) {
        // the threads walk over the same operations, each in its own order within a window
        constexpr size_t Window = 24;
        for (size_t w = 0; w < events.size(); w += Window) {
          const size_t n = std::min(Window, events.size() - w);
          for (size_t k = 0; k < 2 * n; ++k) {
            const size_t i = w + g.below(n);
            const auto v = judge(events[i]);
            ++count[t];
            if ((v.differs && judged) || v.mutated || v.fpenv) bad[t].push_back({v, i});
          }
          // evidence of overlap: another thread moved on since
          const size_t p = position.fetch_add(1, std::memory_order_relaxed);
          if (p % threads != t) ++overlap[t];
        }
      }
    });
  }
  go = true;
  for (auto& t : pool) t.join();
  auto& st = mon::st();
  st.group_name = "history";
  for (size_t t = 0; t < threads; ++t) {
    for (const auto& b : bad[t]) report(b.v, events[b.event], "concurrent");
    st.evaluations += count[t];
    st.checks += count[t];
    st.nontrivial += count[t];
    st.observed["concurrent:calls"] += count[t];
    st.observed["concurrent:windows interleaved with other threads"] += overlap[t];
  }
}
} // namespace

int main(int argc, char** argv) {
  auto& s = mon::st();
  s.property = "C02";
  const char* out = nullptr;
  size_t stripe = 0, stripes = 1;
  for (int i = 1; i < argc; ++i) {
    const auto is = [&](const char* n) { return std::strcmp(argv[i], n) == 0 && i + 1 < argc; };
    if (is("--seed")) s.seed = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--scale")) s.scale = std::atof(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--stripe")) stripe = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--stripes")) stripes = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--crash-file")) s.crash_fd = ::open(argv[++i], O_CREAT | O_TRUNC | O_WRONLY, 0644);
    else return 5;
  }
  s.group = "history";
#ifndef MON_SANITIZED
  mon::install_handlers(false);
#endif
  const auto tab = ops::make_table();
  const auto sh = ops::make_shared_objects(s.seed);
  table = &tab;
  shared = &sh;
  fp0 = fp_control();
  const auto shared_digest = [](const ops::Shared& x) {
    ops::Out o;
    ops::put(o, std::make_tuple(x.points3d, x.points3f, x.polys, x.texts, x.vecs, x.mats, x.quats));
    ops::put(o, std::make_tuple(x.boxes, x.planes, x.lines, x.rays, x.segments));
    return o.h;
  };
  // of equal objects, so that the threads are the first to ask the shared ones
  const auto shared_before = shared_digest(ops::make_shared_objects(s.seed));
#ifdef C02_TSAN
  auto events = make_events(s.seed + 5, stripe, stripes, 1);
  std::vector<Event> on_shared;
  for (const auto& e : events)
    if (table->ops[e.op].name.compare(0, 6, "shared") == 0) on_shared.push_back(e);
  concurrent(events, s.seed, 8, int(std::max(1.0, 2 * s.scale)), false);
  // new objects each time
  for (uint64_t r = 0; r < 12 && !on_shared.empty(); ++r) {
    const auto fresh = ops::make_shared_objects(s.seed);
    shared = &fresh;
    concurrent(on_shared, s.seed + 1000 + r, 8, 1, false);
    s.observed["rounds with new shared objects"]++;
    CHK(shared_digest(fresh) == shared_before, "shared objects changed", "read-only objects have another value after the run");
    shared = &sh;
  }
#else
  const int bases = std::max(1, int(3 * s.scale));
  auto events = make_events(s.seed, stripe, stripes, bases);
  references(events);
  const auto pass = [&](const char* history, const std::vector<size_t>& order, bool noise) {
    mon::Rng g(mon::mix64(s.seed + 17) + stripe);
    for (const size_t i : order) {
      if (noise && g.below(2)) distract(g);
      report(judge(events[i]), events[i], history);
    }
  };
  std::vector<size_t> order(events.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  pass("sequential", order, false);
  for (const size_t i : order) mon::st().observed["events with long lists"] += events[i].mode == 3;
  std::reverse(order.begin(), order.end());
  pass("reversed", order, false);
  mon::Rng g(mon::mix64(s.seed + 3) + stripe);
  for (int r = 0; r < 6; ++r) {
    g.shuffle(order);
    pass("shuffled with other calls", order, true);
  }
  // neighbouring events: the same operation with arguments that differ in one component
  for (int r = 0; r < 40; ++r) {
    std::vector<size_t> near;
    for (size_t w = 0; w < events.size(); w += 8) {
      for (size_t k = 0; k < 8; ++k) near.push_back(w + g.below(std::min<size_t>(8, events.size() - w)));
    }
    pass("alternating", near, false);
  }
  concurrent(events, s.seed, 4, int(std::max(1.0, 3 * s.scale)), true);
  for (const auto& e : events) mon::remember(mon::mix64(e.seed) ^ mon::mix64((uint64_t(e.op) << 24) + (uint64_t(e.mode) << 16) + uint64_t(e.flip + 2)));
  s.observed["events with reference process"] += events.size();
  s.observed["operations"] += (tab.ops.size() + stripes - 1 - stripe) / stripes;
#endif
  s.group_name = "history";
  CHK(shared_digest(sh) == shared_before, "shared objects changed", "read-only objects have another value after the run");
  if (out) mon::write_report(out);
  for (const auto& [k, v] : s.violations) std::printf("ORACLE %s count=%llu: %s\n", k.c_str(), (unsigned long long)v.count, v.detail.c_str());
  return s.violations.empty() ? 0 : 1;
}
