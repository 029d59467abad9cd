// C14: point cloud processing pipelines writing to a faulty disk.
// FLAVOR: plain
// INSTRUMENT: no
#include <cmath>
#include <cstring>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cairo/cairo.h"
#include "sim/sim.h"

namespace io = cartographer::io;
namespace {
struct NoFiles : public cartographer::common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { return ""; }
  std::string GetFileContentOrDie(const std::string&) override { return ""; }
};
struct P {
  float x, y, z;
  bool has_i, has_c;
  float intensity;
  std::array<float, 3> color;
  // of its batch
  std::array<float, 3> origin;
  std::string frame;
  int batch;
};
struct Batch { std::array<float, 3> origin; std::string frame; bool has_i, has_c; std::vector<P> points; int time; };

// A writer that cannot fail: what a perfect disk would hold.
struct MemoryWriter : public io::FileWriter {
  std::map<std::string, std::string>* files;
  std::string name;
  MemoryWriter(std::map<std::string, std::string>* f, const std::string& n) : files(f), name(n) { (*files)[name]; }
  bool WriteHeader(const char* d, size_t n) override {
    std::string& s = (*files)[name];
    if (s.size() < n) s.resize(n);
    s.replace(0, n, d, n);
    return true;
  }
  bool Write(const char* d, size_t n) override { (*files)[name].append(d, n); return true; }
  bool Close() override { return true; }
  std::string GetFilename() override { return name; }
};

enum Filter { kCount, kMinMax, kVertical, kFrames, kSample, kColor, kIntensityColor, kOutlier };
struct Stage { Filter f; double a, b; std::string s; std::string lua; };

std::string Num(double d) { std::ostringstream s; s << std::setprecision(17) << d; std::string r = s.str(); if (r.find('.') == std::string::npos && r.find('e') == std::string::npos) r += "."; return r; }

// Whether a frame is one of a list written as <a><b>.
bool Listed(const std::string& list, const std::string& frame) {
  return list.find("<" + frame + ">") != std::string::npos;
}

// Independent model of the filters: which points survive, in order.
std::vector<P> Apply(const std::vector<P>& in, const Stage& s) {
  std::vector<P> out;
  switch (s.f) {
    case kCount: return in;
    case kMinMax:
      for (auto& p : in) {
        const float dx = p.x - p.origin[0], dy = p.y - p.origin[1], dz = p.z - p.origin[2];
        const float r2 = dx * dx + dy * dy + dz * dz;
        if (s.a * s.a <= r2 && r2 <= s.b * s.b) out.push_back(p);
      }
      return out;
    case kVertical:
      for (auto& p : in) { const float dz = p.z - p.origin[2]; if (s.a <= dz && dz <= s.b) out.push_back(p); }
      return out;
    case kFrames:
      for (auto& p : in) if ((s.a > 0) == Listed(s.s, p.frame)) out.push_back(p);
      return out;
    case kSample: {
      int64_t pulses = 0, samples = 0;
      for (auto& p : in) { ++pulses; if (static_cast<double>(samples) / pulses < s.a) { ++samples; out.push_back(p); } }
      return out;
    }
    case kColor:
      for (auto p : in) { if (p.frame == s.s) { p.has_c = true; p.color = {{s.a > 0 ? 1.f : 0.f, 0.f, 64 / 255.f}}; } out.push_back(p); }
      return out;
    case kIntensityColor:
      for (auto p : in) {
        if (p.has_i && (s.s.empty() || p.frame == s.s)) {
          float g = (p.intensity - static_cast<float>(s.a)) / (static_cast<float>(s.b) - static_cast<float>(s.a));
          g = g < 0 ? 0 : g > 1 ? 1 : g;
          p.has_c = true;
          p.color = {{g, g, g}};
        }
        out.push_back(p);
      }
      return out;
    case kOutlier: {
      typedef std::tuple<long, long, long> V;
      const float res = static_cast<float>(s.a);
      auto cell = [&](float x, float y, float z) { return V(std::lround(x / res), std::lround(y / res), std::lround(z / res)); };
      std::map<V, int> hits, rays;
      for (auto& p : in) ++hits[cell(p.x, p.y, p.z)];
      for (auto& p : in) {
        const Eigen::Vector3f o(p.origin[0], p.origin[1], p.origin[2]);
        const Eigen::Vector3f d = Eigen::Vector3f(p.x, p.y, p.z) - o;
        const float len = d.norm();
        for (float x = 0; x < len; x += s.a) {
          const Eigen::Vector3f q = o + (x / len) * d;
          const V v = cell(q.x(), q.y(), q.z());
          if (hits.count(v)) ++rays[v];
        }
      }
      for (auto& p : in) { const V v = cell(p.x, p.y, p.z); if (rays[v] < s.b * hits[v]) out.push_back(p); }
      return out;
    }
  }
  return out;
}

std::unique_ptr<io::PointsBatch> Make(const Batch& b, size_t from, size_t to) {
  auto r = absl::make_unique<io::PointsBatch>();
  r->origin = Eigen::Vector3f(b.origin[0], b.origin[1], b.origin[2]);
  r->frame_id = b.frame;
  r->start_time = cartographer::common::FromUniversal(1000 + b.time);
  for (size_t i = from; i < to; ++i) {
    const P& p = b.points[i];
    r->points.push_back({Eigen::Vector3f(p.x, p.y, p.z)});
    if (b.has_i) r->intensities.push_back(p.intensity);
    if (b.has_c) r->colors.push_back(p.color);
  }
  return r;
}

// Runs the stream through the real pipeline as the assets writer does. 'chunk'
// cuts batches into smaller ones.
int passes = 0;
void Stream(const std::string& lua, const std::vector<Batch>& batches, size_t chunk, const io::FileWriterFactory& factory,
            const std::vector<cartographer::mapping::proto::Trajectory>& trajectories) {
  io::PointsProcessorPipelineBuilder builder;
  io::RegisterBuiltInPointsProcessors(trajectories, factory, &builder);
  auto dict = cartographer::common::LuaParameterDictionary::NonReferenceCounted(lua, absl::make_unique<NoFiles>());
  auto pipeline = builder.CreatePipeline(dict.get());
  passes = 0;
  do {
    ++passes;
    SIM_CHECK(passes < 10, "endless-restarts", "the pipeline keeps asking for another pass");
    for (auto& b : batches) {
      if (chunk == 0 || b.points.empty()) { pipeline.back()->Process(Make(b, 0, b.points.size())); continue; }
      for (size_t i = 0; i < b.points.size(); i += chunk) pipeline.back()->Process(Make(b, i, std::min(b.points.size(), i + chunk)));
    }
  } while (pipeline.back()->Flush() == io::PointsProcessor::FlushResult::kRestartStream);
}

uint8_t U8(float c) { return static_cast<uint8_t>(std::lround((c < 0 ? 0 : c > 1 ? 1 : c) * 255)); }
bool F32(const std::string& d, size_t* p, float* f) { if (*p + 4 > d.size()) return false; memcpy(f, &d[*p], 4); *p += 4; return true; }

void CheckPly(const std::string& d, const std::vector<P>& want, bool mixed) {
  const size_t e = d.find("end_header\n");
  SIM_CHECK(e != std::string::npos, "ply-header", "the PLY file has no complete header");
  const std::string h = d.substr(0, e);
  const size_t v = h.find("element vertex ");
  SIM_CHECK(h.compare(0, 4, "ply\n") == 0 && v != std::string::npos, "ply-header", "the PLY header is malformed");
  const long n = std::stol(h.substr(v + 15));
  SIM_CHECK(n == static_cast<long>(want.size()), "ply-count", "the PLY header announces " + std::to_string(n) + " points, " + std::to_string(want.size()) + " were processed");
  const bool c = h.find("property uchar red") != std::string::npos, in = h.find("property float intensity") != std::string::npos;
  SIM_CHECK(c == (!want.empty() && want[0].has_c) && in == (!want.empty() && want[0].has_i), "ply-layout", "the PLY header announces attributes the points do not have, or lacks some");
  size_t p = e + 11;
  for (auto& w : want) {
    float x, y, z, i = 0;
    SIM_CHECK(F32(d, &p, &x) && F32(d, &p, &y) && F32(d, &p, &z), "ply-truncated", "the PLY file ends before its last point");
    SIM_CHECK(x == w.x && y == w.y && z == w.z, "ply-point", "a point of the PLY file differs from the one processed");
    if (c) {
      SIM_CHECK(p + 3 <= d.size(), "ply-truncated", "the PLY file ends before its last point");
      if (w.has_c) for (int k = 0; k < 3; ++k) SIM_CHECK(static_cast<uint8_t>(d[p + k]) == U8(w.color[k]), "ply-color", "a colour differs");
      p += 3;
    }
    if (in) { SIM_CHECK(F32(d, &p, &i), "ply-truncated", "the PLY file ends early"); if (w.has_i) SIM_CHECK(i == w.intensity, "ply-intensity", "an intensity differs"); }
  }
  SIM_CHECK(p == d.size(), "ply-trailing", "the PLY file holds more than its points");
}
void CheckPcd(const std::string& d, const std::vector<P>& want) {
  const size_t e = d.find("DATA binary\n");
  SIM_CHECK(e != std::string::npos && d.compare(0, 2, "# ") == 0, "pcd-header", "the PCD file has no complete header");
  const std::string h = d.substr(0, e);
  const long w1 = std::stol(h.substr(h.find("WIDTH ") + 6)), w2 = std::stol(h.substr(h.find("POINTS ") + 7));
  SIM_CHECK(w1 == static_cast<long>(want.size()) && w2 == w1, "pcd-count", "the PCD header announces " + std::to_string(w2) + " points, " + std::to_string(want.size()) + " were processed");
  const bool c = h.find("FIELDS x y z rgb\n") != std::string::npos;
  SIM_CHECK(c || h.find("FIELDS x y z\n") != std::string::npos, "pcd-header", "the PCD header is malformed");
  size_t p = e + 12;
  for (auto& w : want) {
    float x, y, z;
    SIM_CHECK(F32(d, &p, &x) && F32(d, &p, &y) && F32(d, &p, &z), "pcd-truncated", "the PCD file ends before its last point");
    SIM_CHECK(x == w.x && y == w.y && z == w.z, "pcd-point", "a point of the PCD file differs from the one processed, or the points do not have the announced layout");
    if (c) {
      SIM_CHECK(p + 4 <= d.size(), "pcd-truncated", "the PCD file ends before its last point");
      if (w.has_c) for (int k = 0; k < 3; ++k) SIM_CHECK(static_cast<uint8_t>(d[p + k]) == U8(w.color[2 - k]), "pcd-color", "a colour differs");
      p += 4;
    }
  }
  SIM_CHECK(p == d.size(), "pcd-trailing", "the PCD file holds more than its points");
}
void CheckXyz(const std::string& d, const std::vector<P>& want) {
  std::ostringstream s;
  s << std::setprecision(6);
  for (auto& w : want) s << w.x << " " << w.y << " " << w.z << "\n";
  SIM_CHECK(d == s.str(), "xyz-content", "the XYZ file does not list exactly the points processed, in order");
}

// What the grids have to hold: the surviving points of every batch, inserted
// batch by batch.
namespace cm = cartographer::mapping;
cartographer::sensor::RangeData BatchData(const Batch& b, int index, const std::vector<P>& want) {
  std::vector<cartographer::sensor::RangefinderPoint> pts;
  for (auto& p : want) if (p.batch == index) pts.push_back({Eigen::Vector3f(p.x, p.y, p.z)});
  return {Eigen::Vector3f(b.origin[0], b.origin[1], b.origin[2]), cartographer::sensor::PointCloud(pts), {}};
}
void CheckHybrid(const std::string& d, const std::vector<Batch>& batches, const std::vector<char>& alive, const std::vector<P>& want) {
  cm::proto::RangeDataInserterOptions3D o;
  o.set_hit_probability(0.55);
  o.set_miss_probability(0.49);
  o.set_num_free_space_voxels(2);
  o.set_intensity_threshold(40);
  cm::RangeDataInserter3D inserter(o);
  cm::HybridGrid grid(0.5);
  for (size_t i = 0; i < batches.size(); ++i) if (alive[i]) inserter.Insert(BatchData(batches[i], i, want), &grid, nullptr);
  cm::proto::HybridGrid got;
  SIM_CHECK(got.ParseFromString(d), "grid-malformed", "the exported 3D grid cannot be parsed");
  std::map<std::tuple<int, int, int>, int> a, b;
  for (auto c : grid) a[std::make_tuple(c.first.x(), c.first.y(), c.first.z())] = c.second;
  SIM_CHECK(got.x_indices_size() == got.values_size() && got.y_indices_size() == got.values_size() && got.z_indices_size() == got.values_size() && got.resolution() == 0.5f,
            "grid-malformed", "the exported 3D grid is malformed");
  for (int i = 0; i < got.values_size(); ++i)
    SIM_CHECK(b.emplace(std::make_tuple(got.x_indices(i), got.y_indices(i), got.z_indices(i)), got.values(i)).second, "grid-malformed", "a cell appears twice in the exported 3D grid");
  SIM_CHECK(a == b, "grid-content", "the exported 3D grid (" + std::to_string(b.size()) + " cells) does not hold the points processed (" + std::to_string(a.size()) + " cells)");
}
cm::ProbabilityGrid ReferenceGrid(cm::ValueConversionTables* tables, const std::vector<Batch>& batches, const std::vector<char>& alive, const std::vector<P>& want) {
  cm::proto::ProbabilityGridRangeDataInserterOptions2D o;
  o.set_hit_probability(0.55);
  o.set_miss_probability(0.49);
  o.set_insert_free_space(true);
  cm::ProbabilityGridRangeDataInserter2D inserter(o);
  cm::ProbabilityGrid grid(cm::MapLimits(0.25, Eigen::Vector2d(0.125, 0.125) * 2, cm::CellLimits(2, 2)), tables);
  for (size_t i = 0; i < batches.size(); ++i) if (alive[i]) inserter.Insert(BatchData(batches[i], i, want), &grid);
  return grid;
}
typedef std::map<std::pair<long, long>, float> Cells;
Cells CellsOf(const cm::ProbabilityGrid& g) {
  Cells r;
  for (const Eigen::Array2i& i : cm::XYIndexRangeIterator(g.limits().cell_limits()))
    if (g.IsKnown(i)) {
      const Eigen::Vector2f c = g.limits().GetCellCenter(i);
      r[std::make_pair(std::lround(c.x() * 40), std::lround(c.y() * 40))] = g.GetProbability(i);
    }
  return r;
}
struct Picture { int w = 0, h = 0; std::vector<uint32_t> px; };
bool DecodePng(const std::string& d, Picture* out) {
  struct In { const std::string* d; size_t p; } in{&d, 0};
  cairo_surface_t* s = cairo_image_surface_create_from_png_stream([](void* c, unsigned char* to, unsigned int n) -> cairo_status_t {
    In* i = static_cast<In*>(c);
    if (i->p + n > i->d->size()) return CAIRO_STATUS_READ_ERROR;
    memcpy(to, i->d->data() + i->p, n);
    i->p += n;
    return CAIRO_STATUS_SUCCESS;
  }, &in);
  const bool ok = cairo_surface_status(s) == CAIRO_STATUS_SUCCESS;
  if (ok) {
    out->w = cairo_image_surface_get_width(s);
    out->h = cairo_image_surface_get_height(s);
    const int stride = cairo_image_surface_get_stride(s);
    const unsigned char* data = cairo_image_surface_get_data(s);
    for (int y = 0; y < out->h; ++y) for (int x = 0; x < out->w; ++x) { uint32_t v; memcpy(&v, data + y * stride + 4 * x, 4); out->px.push_back(v & 0xffffff); }
  }
  cairo_surface_destroy(s);
  return ok;
}
void CheckGridImage(const std::string& d, const cm::ProbabilityGrid& grid) {
  Eigen::Array2i offset;
  cm::CellLimits limits;
  grid.ComputeCroppedLimits(&offset, &limits);
  bool any = false;
  for (const Eigen::Array2i& i : cm::XYIndexRangeIterator(grid.limits().cell_limits())) any = any || grid.IsKnown(i);
  if (!any && d.empty()) return;
  Picture p;
  SIM_CHECK(DecodePng(d, &p), "image-malformed", "the exported image cannot be decoded");
  SIM_CHECK(p.w == limits.num_x_cells && p.h == limits.num_y_cells, "image-size", "the exported image has another size than the grid");
  for (const Eigen::Array2i& xy : cm::XYIndexRangeIterator(limits)) {
    const Eigen::Array2i i = xy + offset;
    int v = 128;
    if (grid.IsKnown(i)) v = std::lround(255 * ((1.f - grid.GetProbability(i) - 0.1f) / 0.8f));
    const uint32_t px = p.px[xy.y() * p.w + xy.x()];
    for (int k = 0; k < 3; ++k)
      SIM_CHECK(std::abs(static_cast<int>(px >> (8 * k) & 255) - v) <= 1, "image-content", "a pixel of the exported image does not show the grid's cell");
  }
}
void CheckXray(const std::string& d, const std::vector<P>& want, float res, const std::array<float, 3>& shift, float saturation_factor) {
  struct Column { std::set<long> xs; float r = 0, g = 0, b = 0; int n = 0; };
  std::map<std::pair<long, long>, Column> cols;
  long y0 = 1 << 30, y1 = -y0, z0 = y0, z1 = -y0;
  for (auto& p : want) {
    const long x = std::lround((p.x + shift[0]) / res), y = std::lround((p.y + shift[1]) / res), z = std::lround((p.z + shift[2]) / res);
    Column& c = cols[std::make_pair(y, z)];
    c.xs.insert(x);
    if (p.has_c) { c.r += p.color[0]; c.g += p.color[1]; c.b += p.color[2]; }
    ++c.n;
    y0 = std::min(y0, y); y1 = std::max(y1, y); z0 = std::min(z0, z); z1 = std::max(z1, z);
  }
  if (want.empty()) { SIM_CHECK(d.empty(), "image-content", "an image of nothing was written"); return; }
  Picture p;
  SIM_CHECK(DecodePng(d, &p), "image-malformed", "the exported image cannot be decoded");
  SIM_CHECK(p.w == y1 - y0 + 1 && p.h == z1 - z0 + 1, "image-size", "the exported X-ray image does not cover the points");
  float max = std::numeric_limits<float>::min();
  for (auto& c : cols) max = std::max(max, std::log(static_cast<float>(c.second.xs.size())));
  for (int v = 0; v < p.h; ++v)
    for (int u = 0; u < p.w; ++u) {
      auto it = cols.find(std::make_pair(y1 - u, z1 - v));
      int rgb[3] = {255, 255, 255};
      if (it != cols.end()) {
        const Column& c = it->second;
        const float s = std::min(1.f, std::log(static_cast<float>(c.xs.size())) / max * saturation_factor);
        const float mean[3] = {c.r / c.n, c.g / c.n, c.b / c.n};
        for (int k = 0; k < 3; ++k) rgb[k] = U8((1.f - s) + s * mean[k]);
      }
      const uint32_t px = p.px[v * p.w + u];
      for (int k = 0; k < 3; ++k)
        SIM_CHECK(std::abs(static_cast<int>(px >> (8 * (2 - k)) & 255) - rgb[k]) <= 1, "image-content", "a pixel of the exported X-ray image does not show the points behind it");
    }
}

bool Mixed(const std::vector<P>& v) {
  for (auto& p : v) if (p.has_c != v[0].has_c || p.has_i != v[0].has_i) return true;
  return false;
}

void Run() {
  auto& r = sim::workload();
  std::vector<Batch> batches;
  const int nb = r.range(0, 6);
  const int ci = r.range(0, 3);   // colours/intensities of the input
  for (int i = 0; i < nb; ++i) {
    Batch b;
    b.origin = {{static_cast<float>(r.uniform(-1, 1)), static_cast<float>(r.uniform(-1, 1)), static_cast<float>(r.uniform(0, 1))}};
    b.frame = r.chance(0.1) ? "" : r.chance(0.45) ? "a" : r.chance(0.7) ? "b" : "c";
    b.has_i = ci & 1;
    b.has_c = ci & 2;
    b.time = i;
    const int n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(100, 900) : r.range(1, 12);
    for (int k = 0; k < n; ++k) {
      P p;
      // Coarse coordinates keep points away from voxel and range borders.
      p.x = r.range(-30, 30) * 0.13f + 0.017f;
      p.y = r.range(-30, 30) * 0.13f + 0.017f;
      p.z = r.range(-3, 12) * 0.13f + 0.017f;
      p.has_i = b.has_i;
      p.has_c = b.has_c;
      p.intensity = r.range(0, 200) * 0.5f;
      p.color = {{r.range(0, 255) / 255.f, r.range(0, 255) / 255.f, r.range(0, 255) / 255.f}};
      p.origin = b.origin;
      p.frame = b.frame;
      p.batch = batches.size();
      b.points.push_back(p);
    }
    if (sim::op_enabled(i)) batches.push_back(b);
  }
  // The pipeline: filters, at most one of them multi-pass, then writers, with
  // single-pass filters also between the writers.
  std::vector<Stage> stages;
  auto filter = [&](bool multi) {
    Stage s;
    s.f = static_cast<Filter>(r.range(0, multi ? 7 : 6));
    switch (s.f) {
      case kCount: s.lua = "{ action = \"dump_num_points\" },"; break;
      case kMinMax: s.a = r.range(0, 3); s.b = r.range(3, 6); s.lua = "{ action = \"min_max_range_filter\", min_range = " + Num(s.a) + ", max_range = " + Num(s.b) + " },"; break;
      case kVertical: s.a = -r.range(0, 2); s.b = r.range(0, 2); s.lua = "{ action = \"vertical_range_filter\", min_z = " + Num(s.a) + ", max_z = " + Num(s.b) + " },"; break;
      case kFrames: {
        s.a = r.chance(0.5) ? 1 : 0;
        std::string list;
        const int which = r.range(1, 7);
        for (int k = 0; k < 3; ++k) if (which >> k & 1) { const std::string n(1, static_cast<char>('a' + k)); s.s += "<" + n + ">"; list += (list.empty() ? "\"" : ", \"") + n + "\""; }
        s.lua = std::string("{ action = \"frame_id_filter\", ") + (s.a > 0 ? "keep_frames" : "drop_frames") + " = { " + list + " } },";
        break;
      }
      case kSample: s.a = r.range(1, 9) * 0.1; s.lua = "{ action = \"fixed_ratio_sampler\", sampling_ratio = " + Num(s.a) + " },"; break;
      case kColor: s.a = r.chance(0.5); s.s = r.chance(0.5) ? "a" : "b"; s.lua = "{ action = \"color_points\", frame_id = \"" + s.s + "\", color = { " + (s.a > 0 ? "255." : "0.") + ", 0., 64. } },"; break;
      case kIntensityColor: s.a = r.chance(0.5) ? 0 : r.range(-10, 40); s.b = r.range(50, 100); s.s = r.chance(0.5) ? "" : r.chance(0.5) ? "a" : "b"; s.lua = "{ action = \"intensity_to_color\", min_intensity = " + Num(s.a) + ", max_intensity = " + Num(s.b) + (s.s.empty() ? "" : ", frame_id = \"" + s.s + "\"") + " },"; break;
      case kOutlier: s.a = r.chance(0.5) ? 0.25 : 0.5; s.b = r.range(1, 3); s.lua = "{ action = \"voxel_filter_and_remove_moving_objects\", voxel_size = " + Num(s.a) + ", miss_per_hit_limit = " + Num(s.b) + " },"; break;
    }
    return s;
  };
  std::string lua = "pipeline = {\n";
  std::vector<P> points;
  for (auto& b : batches) for (auto& p : b.points) points.push_back(p);
  bool outlier = false, batch_dependent = false;
  std::vector<char> alive(batches.size(), 1);   // batches that get through
  auto pass = [&](const Stage& s) {
    points = Apply(points, s);
    if (s.f == kFrames) for (size_t i = 0; i < batches.size(); ++i) if ((s.a > 0) != Listed(s.s, batches[i].frame)) alive[i] = 0;
  };
  const int nf = r.range(0, 3);
  for (int i = 0; i < nf; ++i) {
    Stage s = filter(!outlier);
    if (s.f == kOutlier) outlier = true;
    lua += s.lua + "\n";
    pass(s);
  }
  struct File { std::string name; int kind; std::vector<P> want; std::vector<char> alive; std::array<float, 3> shift; float saturation; };
  std::vector<File> files;
  const int nw = r.range(1, 3);
  bool mixed = false;
  for (int i = 0; i < nw; ++i) {
    const int kind = r.chance(0.75) ? r.range(0, 2) : r.range(3, 6);
    const std::string base = "/simdisk/out" + std::to_string(i);
    File f{base, kind, points, alive, {{0, 0, 0}}, 1.f};
    const bool draw = r.chance(0.4);
    const std::string drawing = std::string(", draw_trajectories = ") + (draw ? "true" : "false");
    switch (kind) {
      case 0: lua += "{ action = \"write_ply\", filename = \"" + base + "\" },\n"; mixed = mixed || Mixed(points); break;
      case 1: lua += "{ action = \"write_pcd\", filename = \"" + base + "\" },\n"; mixed = mixed || Mixed(points); break;
      case 2: lua += "{ action = \"write_xyz\", filename = \"" + base + "\" },\n"; break;
      case 3: lua += "{ action = \"write_hybrid_grid\", voxel_size = 0.5, filename = \"" + base + "\", range_data_inserter = { hit_probability = 0.55, miss_probability = 0.49, num_free_space_voxels = 2, intensity_threshold = 40. } },\n"; batch_dependent = true; break;
      case 4: case 5: {
        const bool png = kind == 5;
        lua += "{ action = \"write_probability_grid\", resolution = 0.25, filename = \"" + base + "\", output_type = \"" + (png ? "png" : "pb") + "\"" + drawing + ", range_data_inserter = { insert_free_space = true, hit_probability = 0.55, miss_probability = 0.49 } },\n";
        f.name += png ? ".png" : ".pb";
        batch_dependent = true;
        break;
      }
      default:
        for (auto& x : f.shift) x = r.range(-8, 8) * 0.25f;
        f.saturation = r.range(1, 4) * 0.5f;
        lua += "{ action = \"write_xray_image\", voxel_size = 0.25, filename = \"" + base + "\"" + drawing + ", saturation_factor = " + Num(f.saturation) + ", transform = { translation = { " + Num(f.shift[0]) + ", " + Num(f.shift[1]) + ", " + Num(f.shift[2]) + " }, rotation = { 0., 0., 0. } } },\n";
        f.name += ".png";
    }
    if (kind >= 5 && draw) f.kind = 7;   // with the trajectories drawn over it
    files.push_back(f);
    if (r.chance(0.3)) { Stage s = filter(false); lua += s.lua + "\n"; pass(s); }
  }
  lua += "}\nreturn pipeline";
  sim::note(lua);
  std::vector<cartographer::mapping::proto::Trajectory> trajectories(r.range(0, 1));
  for (auto& t : trajectories)
    for (int i = 0; i < 3; ++i) {
      auto* n = t.add_node();
      n->set_timestamp(1000 + i);
      n->mutable_pose()->mutable_translation()->set_x(0.1 * i);
      n->mutable_pose()->mutable_rotation()->set_w(1);
    }
  const size_t chunk = batch_dependent ? 0 : r.chance(0.5) ? r.range(1, 7) : 0;

  // On a perfect disk.
  std::map<std::string, std::string> memory;
  sim::on_fatal([mixed](const std::string& m) {
    if (!mixed) sim::fail("stopped-without-fault", "the export stopped although nothing failed: " + m);
    sim::count("probe.mixed_attributes_refused");
  });
  Stream(lua, batches, 0, [&](const std::string& n) { return absl::make_unique<MemoryWriter>(&memory, n); }, trajectories);
  SIM_CHECK(passes == (outlier ? 3 : 1), "passes", "the pipeline took " + std::to_string(passes) + " passes");
  for (auto& f : files) {
    const std::string& d = memory[f.name];
    if (f.kind == 0) CheckPly(d, f.want, mixed);
    else if (f.kind == 1) CheckPcd(d, f.want);
    else if (f.kind == 2) CheckXyz(d, f.want);
    else if (f.kind == 3) CheckHybrid(d, batches, f.alive, f.want);
    else if (f.kind == 4 || f.kind == 5) {
      cm::ValueConversionTables tables;
      const cm::ProbabilityGrid grid = ReferenceGrid(&tables, batches, f.alive, f.want);
      if (f.kind == 5) CheckGridImage(d, grid);
      else {
        cm::proto::Grid2D proto;
        SIM_CHECK(proto.ParseFromString(d), "grid-malformed", "the exported 2D grid cannot be parsed");
        cm::ValueConversionTables other;
        const Cells a = CellsOf(grid), b = CellsOf(cm::ProbabilityGrid(proto, &other));
        SIM_CHECK(a == b, "grid-content", "the exported 2D grid (" + std::to_string(b.size()) + " cells) does not hold the points processed (" + std::to_string(a.size()) + " cells)");
      }
    } else if (f.kind == 6) CheckXray(d, f.want, 0.25f, f.shift, f.saturation);
    if (f.want.size() > 100) sim::count("probe.large_export");
    if (f.want.empty()) sim::count("probe.empty_export");
  }

  // On the faulty one, with the stream cut differently.
  sim::disk::Plan plan;
  const int kind = r.range(0, 8);
  const double p = r.chance(0.3) ? 0.3 : 0.05;
  if (kind == 1) plan.write_error = p;
  if (kind == 2) { plan.short_write = 0.5; plan.eintr = 0.2; }
  if (kind == 3) plan.close_fail = 0.5;
  if (kind == 4) plan.open_fail = 0.5;
  if (kind == 5) plan.seek_fail = 0.5;
  size_t total = 0;
  for (auto& f : memory) total += f.second.size();
  if (kind == 6) plan.capacity = r.below(total + 10);
  if (kind == 7) { plan.write_error = plan.close_fail = plan.open_fail = plan.seek_fail = 0.03; plan.short_write = 0.2; plan.eintr = 0.1; }
  const bool faulty = kind == 1 || (kind >= 3 && kind <= 7);
  sim::on_fatal([faulty](const std::string& m) {
    if (!faulty) sim::fail("stopped-without-fault", "the export stopped although nothing failed: " + m);
    sim::count("probe.loud_failure");
  });
  // Now and then the files of an earlier export are replaced.
  if (r.chance(0.3))
    for (auto& f : files) {
      std::string old(r.below(2 * memory[f.name].size() + 100), 'o');
      if (!old.empty() && !memory[f.name].empty()) sim::disk::put(f.name, old);
    }
  sim::disk::set_plan(plan);
  Stream(lua, batches, chunk, [&](const std::string& n) { return absl::make_unique<io::StreamFileWriter>(n); }, trajectories);
  const uint64_t errors = sim::disk::errors_injected();
  sim::disk::set_plan(sim::disk::Plan());
  sim::count("probe.finished");
  // Images of nothing are not written at all.
  bool nothing = false;
  for (auto& f : files) nothing = nothing || (f.kind >= 5 && memory[f.name].empty());
  SIM_CHECK(errors == 0 || nothing, "error-not-reported", "the export finished although the disk reported an error");
  for (auto& f : files) {
    const std::string d = sim::disk::content(f.name), &want = memory[f.name];
    sim::log_event(static_cast<uint64_t>(d.size()));
    SIM_CHECK(d == want, d.size() < want.size() ? "silently-truncated" : "silently-wrong",
              "the export finished without an error, but " + f.name + " holds " + std::to_string(d.size()) + " bytes instead of " + std::to_string(want.size()) +
              (d.size() == want.size() ? " (different ones)" : ""));
  }
}
void Setup() {}
}  // namespace
namespace sim { const Harness kHarness = {"exporter", Setup, Run, false}; }
