// C12, C13: the state file format on a faulty disk.
// FLAVOR: plain
// INSTRUMENT: no
#include <zlib.h>

#include <string>
#include <vector>

#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "sim/sim.h"

namespace io = cartographer::io;
using Msg = cartographer::mapping::proto::SerializedData;
namespace {
const char kPath[] = "/simdisk/state.pbstream";
std::vector<std::string> written;   // serialised

// As large as a submap; sometimes beyond 64 KiB and beyond 1 MiB.
int Large(sim::Rng& r) {
  const double u = r.range(0, 999) / 1000.;
  return u < 0.8 ? r.range(20000, 60000) : u < 0.97 ? r.range(65000, 300000) : r.range(900000, 2500000);
}

Msg Make(sim::Rng& r, int i) {
  Msg m;
  const int kind = r.range(0, 9);
  if (kind == 0) return m;   // an empty message
  auto* d = m.mutable_landmark_data();
  d->set_trajectory_id(i);
  d->mutable_landmark_data()->set_timestamp(1000 + i);
  // Tiny, small, and larger than any stream buffer; compressible or not.
  const int n = kind < 6 ? r.range(0, 2) : 1;
  for (int k = 0; k < n; ++k) {
    auto* o = d->mutable_landmark_data()->add_landmark_observations();
    std::string id;
    const int len = kind < 6 ? r.range(0, 40) : kind < 9 ? r.range(100, 4000) : Large(r);
    const bool noise = r.chance(0.5);
    id.reserve(len);
    for (int c = 0; c < len; ++c) id += noise ? static_cast<char>(r.next()) : 'a';
    o->set_id(id);
    o->set_translation_weight(i);
  }
  return m;
}

// Reads the file with the code under test. Returns the messages; sets 'eof'.
bool reading = false;
std::vector<std::string> got;
bool ReadAll(bool* eof) {
  reading = true;
  got.clear();
  io::ProtoStreamReader reader(kPath);
  Msg m;
  while (reader.ReadProto(&m)) {
    std::string s;
    m.SerializeToString(&s);
    got.push_back(s);
    SIM_CHECK(got.size() <= written.size() && got.back() == written[got.size() - 1], "foreign-message",
              "reading returned message " + std::to_string(got.size()) + " (" + std::to_string(s.size()) + " bytes) which " +
              (got.size() <= written.size() ? "is not the one written there" : "was never written"));
  }
  *eof = reader.eof();
  // Asking again must not help.
  SIM_CHECK(!reader.ReadProto(&m), "read-after-end", "a read succeeded after the reader had reported the end");
  reading = false;
  return true;
}

// An independent reader of the format: magic, then size and gzip data.
bool U64(const std::string& d, size_t* p, uint64_t* v) {
  if (*p + 8 > d.size()) return false;
  *v = 0;
  for (int i = 0; i < 8; ++i) *v |= static_cast<uint64_t>(static_cast<unsigned char>(d[*p + i])) << (8 * i);
  *p += 8;
  return true;
}
// Offsets of the ends of the complete messages stored in 'd'; empty optional
// content when malformed.
bool Decode(const std::string& d, std::vector<std::string>* out, std::vector<size_t>* ends, size_t* consumed) {
  size_t p = 0;
  uint64_t v;
  if (!U64(d, &p, &v) || v != 0x7b1d1f7b5bf501dbull) return false;
  *consumed = p;
  while (U64(d, &p, &v)) {
    if (v > d.size() || p + v > d.size()) break;
    std::string body(std::min<size_t>(64 * 1024 + 1100 * v, 8 << 20), '\0');
    z_stream z = {};
    inflateInit2(&z, 16 + MAX_WBITS);
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data() + p));
    z.avail_in = v;
    z.next_out = reinterpret_cast<Bytef*>(&body[0]);
    z.avail_out = body.size();
    const int rc = inflate(&z, Z_FINISH);
    body.resize(z.total_out);
    const bool whole = rc == Z_STREAM_END && z.avail_in == 0;
    inflateEnd(&z);
    if (!whole) return false;
    out->push_back(body);
    ends->push_back(p + v);
    p += v;
    *consumed = p;
  }
  return true;
}

bool WriteAll(const std::vector<Msg>& msgs, bool* dead) {
  *dead = false;
  io::ProtoStreamWriter writer(kPath);
  for (auto& m : msgs) writer.WriteProto(m);
  return writer.Close();
}

enum Stage { kWriting, kReadingBack, kReadingDamaged } stage = kWriting;

bool no_memory = false;
void RunWrite(const std::vector<Msg>& msgs) {
  auto& r = sim::workload();
  sim::disk::Plan plan;
  const int kind = r.range(0, sim::param("memory", 0) ? 8 : 7);
  const double p = r.chance(0.3) ? 0.3 : 0.03;
  if (kind == 1 || kind == 7) plan.write_error = p;
  if (kind == 2 || kind == 7) plan.short_write = r.chance(0.5) ? 0.5 : 0.05;
  if (kind == 2 || kind == 7) plan.eintr = r.chance(0.5) ? 0.3 : 0.05;
  if (kind == 3 || kind == 7) plan.close_fail = 0.5;
  if (kind == 4) plan.open_fail = 0.7;
  size_t total = 8;
  for (auto& w : written) total += 30 + w.size();
  if (kind == 5) plan.capacity = r.below(total + 40);
  if (kind == 6) {
    plan.crash_after_bytes = r.below(total);
    plan.short_write = 0.3;
  }
  sim::disk::on_crash([] {
    // A new process looks at what is there.
    stage = kReadingBack;
    sim::count("probe.crashed_while_writing");
    bool eof;
    ReadAll(&eof);
  });
  sim::on_fatal([](const std::string& m) {
    if (stage == kWriting && no_memory) { sim::count("probe.out_of_memory_stop"); return; }
    if (stage == kWriting) sim::fail("writer-stopped", "the writer stopped the program: " + m);
    // Refusing a file that does not even hold the magic number is fine.
    if (sim::disk::content(kPath).size() >= 8) sim::fail("refused-prefix", "a file cut short at a write is refused: " + m);
    sim::count("probe.no_magic");
  });
  // Now and then an older, often longer file is replaced.
  std::string old;
  if (r.chance(0.3)) {
    const size_t n = r.below(2 * total + 100);
    while (old.size() < n) old += static_cast<char>(r.next());
    if (!old.empty()) { sim::disk::put(kPath, old); sim::count("probe.replaces_a_file"); }
  }
  sim::disk::set_plan(plan);
  bool dead;
  if (kind == 8) { no_memory = true; sim::set_alloc_failures(r.chance(0.5) ? 0.02 : 0.1); }
  const bool ok = WriteAll(msgs, &dead);
  sim::set_alloc_failures(0);
  const uint64_t errors = sim::disk::errors_injected();
  sim::disk::set_plan(sim::disk::Plan());
  SIM_CHECK(sim::disk::open_files() == 0, "left-open", "the file is still open after Close()");
  stage = kReadingBack;
  std::vector<std::string> ref;
  std::vector<size_t> ends;
  size_t consumed = 0;
  const std::string content = sim::disk::content(kPath);
  if (ok) {
    sim::count("probe.reported_success");
    SIM_CHECK(errors == 0, "error-not-reported", "Close() reported success although the disk reported an error");
    SIM_CHECK(sim::disk::exists(kPath), "success-without-file", "Close() reported success but there is no file");
    const bool good = Decode(content, &ref, &ends, &consumed);
    SIM_CHECK(good && consumed == content.size() && ref == written, "success-but-incomplete",
              "Close() reported success, but of " + std::to_string(written.size()) + " messages the file holds " + std::to_string(ref.size()) +
              (good ? "" : " and is malformed"));
    bool eof = false;
    ReadAll(&eof);
    SIM_CHECK(got.size() == written.size() && eof, "not-read-back", "not everything written is read back");
    sim::log_event(static_cast<uint64_t>(content.size()));
  } else {
    sim::count("probe.reported_failure");
    SIM_CHECK(errors > 0 || no_memory, "failure-without-cause", "Close() reported failure although the disk worked");
    // What is there is a prefix, or refused.
    if (sim::disk::exists(kPath) && (old.empty() || content != old)) {
      sim::on_fatal([](const std::string&) { sim::count("probe.refused_failed_write"); });
      bool eof;
      ReadAll(&eof);
    }
  }
}

void RunRead(const std::vector<Msg>& msgs) {
  auto& r = sim::workload();
  bool dead;
  SIM_CHECK(WriteAll(msgs, &dead), "failure-without-cause", "Close() reported failure although the disk worked");
  stage = kReadingDamaged;
  std::string d = sim::disk::content(kPath);
  const std::string original = d;
  std::vector<std::string> ref;
  std::vector<size_t> ends;
  size_t consumed = 0;
  SIM_CHECK(Decode(d, &ref, &ends, &consumed) && ref == written && consumed == d.size(), "success-but-incomplete", "the file written is malformed");
  ends.insert(ends.begin(), 8);
  const int kind = r.range(0, 9);
  bool altered = false, truncated = false;
  // Offsets where damage hurts most: around the size fields and the gzip ends.
  auto offset = [&]() -> size_t {
    if (r.chance(0.5)) return r.below(d.size());
    const size_t e = ends[r.below(ends.size())];
    const int64_t o = static_cast<int64_t>(e) + r.range(-12, 12);
    return o < 0 || o >= static_cast<int64_t>(d.size()) ? r.below(d.size()) : o;
  };
  sim::disk::Plan plan;
  switch (kind) {
    case 0: break;
    case 1: case 2: {
      const size_t at = offset();
      if (sim::fault("truncated_file", 1)) { d.resize(at); truncated = true; }
      break;
    }
    case 3: case 4: {
      const int n = r.range(1, 3);
      for (int i = 0; i < n; ++i) {
        const size_t at = offset();
        const char mask = 1 << r.range(0, 7);
        if (sim::fault("bit_flipped", 1)) d[at] ^= mask;
      }
      altered = true;
      break;
    }
    case 5: {
      const size_t at = offset();
      const size_t n = std::min<size_t>(r.range(1, 64), d.size() - at);
      if (sim::fault("bytes_zeroed", 1)) for (size_t i = 0; i < n; ++i) d[at + i] = 0;
      altered = true;
      break;
    }
    case 6: {
      // The tail never reached the platter: zeros up to the old size.
      const size_t at = offset();
      if (sim::fault("tail_lost", 1)) for (size_t i = at; i < d.size(); ++i) d[i] = 0;
      altered = true;
      break;
    }
    case 7: {
      const size_t at = offset();
      const size_t n = std::min<size_t>(r.range(1, 64), d.size() - at);
      std::string junk;
      for (size_t i = 0; i < n; ++i) junk += static_cast<char>(r.next());
      if (sim::fault("bytes_overwritten", 1)) d.replace(at, n, junk);
      altered = true;
      break;
    }
    case 8: plan.read_error = r.chance(0.5) ? 0.3 : 0.05; plan.short_read = 0.2; break;
    default: plan.short_read = r.chance(0.5) ? 0.9 : 0.2; plan.eintr = r.chance(0.5) ? 0.3 : 0.1;
  }
  sim::disk::put(kPath, d);
  altered = d != original && !truncated;
  truncated = truncated && d.size() != original.size();
  const bool intact = d == original && plan.read_error == 0;
  sim::on_fatal([intact](const std::string& m) {
    if (intact) sim::fail("undamaged-refused", "an undamaged file is refused: " + m);
    sim::count("probe.loud_stop");
  });
  sim::disk::set_plan(plan);
  bool eof = false;
  ReadAll(&eof);
  const bool failed_reads = sim::disk::errors_injected() > 0;
  sim::disk::set_plan(sim::disk::Plan());
  sim::log_event(static_cast<uint64_t>(got.size() * 2 + eof));
  if (intact) {
    sim::count("probe.read_completely");
    SIM_CHECK(got.size() == written.size() && eof, "undamaged-incomplete", "an undamaged file was not read completely");
    return;
  }
  if (got.size() == written.size()) { sim::count("probe.damage_without_effect"); return; }
  if (!eof) { sim::count("probe.reported_damage"); return; }
  // A regular end: allowed only if no more complete message is in the file, that
  // is after a cut between two messages.
  bool at_boundary = false;
  if (truncated) for (size_t i = 0; i < ends.size(); ++i) if (d.size() == ends[i] && got.size() == i) at_boundary = true;
  SIM_CHECK(at_boundary, "damage-taken-for-end",
            std::string(failed_reads ? "after a read error" : truncated ? "in a file cut inside a message" : "in a file with altered bytes") +
            " the reader returned " + std::to_string(got.size()) + " of " + std::to_string(written.size()) + " messages and reported a regular end of file");
  sim::count("probe.cut_at_boundary");
}

void Run() {
  auto& r = sim::workload();
  sim::set_alloc_limit(64 << 20);
  std::vector<Msg> msgs;
  written.clear();
  const int n = r.range(0, 7);
  for (int i = 0; i < n; ++i) {
    Msg m = Make(r, i);
    if (!sim::op_enabled(i)) continue;
    std::string s;
    m.SerializeToString(&s);
    sim::log_event(s);
    written.push_back(s);
    msgs.push_back(m);
  }
  if (sim::param("read", 0)) RunRead(msgs); else RunWrite(msgs);
}
void Setup() {}
}  // namespace
namespace sim { const Harness kHarness = {"pbstream", Setup, Run, false}; }
