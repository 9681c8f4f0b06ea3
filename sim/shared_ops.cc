// Operations on components that several threads use through their read-only
// interface (the `mt` flavour).
#include <algorithm>
#include <memory>

#include "alignment.h"
#include "analysis_window.h"
#include "audio_signal.h"
#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "ops.h"
#include "shared_ops.h"
#include "simfs.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
#include "vad_patch_creator.h"
#include "visqol.h"

using namespace Visqol;  // NOLINT

struct Shared {
  AudioSignal ref, deg;
  std::unique_ptr<const AnalysisWindow> win;
  std::unique_ptr<const ImagePatchCreator> patches;
  std::unique_ptr<const ComparisonPatchesSelector> sel;
  std::unique_ptr<SimilarityToQualityMapper> map;
  NeurogramSimiliarityIndexMeasure nsim;
  ::Visqol::Visqol v;
  AMatrix<double> spec;
  std::vector<ImagePatch> ref_patches, deg_patches;
  std::vector<size_t> idx;
  bool speech = false;
  int radius = 10;
};
void delete_shared(Shared* s) { delete s; }

static std::string num(double d) {
  char b[64];
  if (d != d) return "nan";
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
static std::string h64(const Fnv& f) {
  char b[32];
  snprintf(b, sizeof b, "%016lx", (unsigned long)f.h);
  return b;
}
static AudioSignal signal_of(const std::string& spec, size_t sr) {
  std::vector<double>* v;
  {
    simfs::Guard g;
    v = new std::vector<double>(make_signal(spec));
  }
  AudioSignal s;
  s.data_matrix = AMatrix<double>(*v);
  s.sample_rate = sr;
  simfs::Guard g;
  delete v;
  return s;
}
static GammatoneSpectrogramBuilder builder_of(bool speech) {
  return GammatoneSpectrogramBuilder(GammatoneFilterBank{(size_t)(speech ? 21 : 32), 50}, speech);
}
static void add(Fnv* f, const AMatrix<double>& m) { f->v(m.ToVector()); }
static void add(Fnv* f, const PatchSimilarityResult& p) {
  add(f, p.freq_band_means);
  add(f, p.freq_band_stddevs);
  add(f, p.freq_band_deg_energy);
  f->d(p.similarity);
}

bool shared_op(std::map<std::string, Shared*>* all, const OpLine& o, std::string* out) {
  const std::string& n = o.name;
  if (n.compare(0, 7, "shared_") != 0) return false;
  std::string id = o.s("id", "0");
  if (n == "shared_make") {
    auto s = std::make_unique<Shared>();
    s->speech = o.n("speech");
    s->radius = o.n("win", 10);
    s->ref = signal_of(o.s("ref"), o.n("sr", 1000));
    s->deg = signal_of(o.s("deg"), o.n("sr", 1000));
    s->win = std::make_unique<const AnalysisWindow>(s->ref.sample_rate, 0.25, 0.08);
    if (s->speech) s->patches = std::make_unique<const VadPatchCreator>(20);
    else s->patches = std::make_unique<const ImagePatchCreator>(30);
    s->sel = std::make_unique<const ComparisonPatchesSelector>(std::make_unique<NeurogramSimiliarityIndexMeasure>());
    if (s->speech) s->map = std::make_unique<SpeechSimilarityToQualityMapper>(o.n("scale", 1));
    else s->map = std::make_unique<SvrSimilarityToQualityMapper>(FilePath(o.s("m")));
    auto st = s->map->Init();
    if (!st.ok()) {
      *out = "ok=0";
      return true;
    }
    // What the threads share has not been used before they start.
    if (o.n("cold")) {
      const size_t rows = s->speech ? 21 : 32, width = s->speech ? 20 : 30, cols = 70;
      AMatrix<double> r(rows, cols);
      s->spec = AMatrix<double>(rows, cols);
      for (size_t c = 0; c < cols; c++)
        for (size_t k = 0; k < rows; k++) {
          r(k, c) = 20 + 15 * sin(0.37 * c + 0.9 * k) + 5 * cos(0.11 * c * k);
          s->spec(k, c) = r(k, c) + 3 * sin(1.3 * c + 0.7 * k);
        }
      for (size_t at = width / 2 - 1; at + width <= cols; at += width) {
        s->idx.push_back(at);
        ImagePatch a(rows, width), b(rows, width);
        for (size_t c = 0; c < width; c++)
          for (size_t k = 0; k < rows; k++) a(k, c) = r(k, at + c), b(k, c) = s->spec(k, at + c);
        s->ref_patches.push_back(a);
        s->deg_patches.push_back(b);
      }
      delete (*all)[id];
      (*all)[id] = s.release();
      *out = "ok=1";
      return true;
    }
    const AnalysisWindow used(s->ref.sample_rate, 0.25, 0.08);
    auto b = builder_of(s->speech);
    auto rs = b.Build(s->ref, used);
    auto ds = b.Build(s->deg, used);
    if (!rs.ok() || !ds.ok()) {
      *out = "ok=0";
      return true;
    }
    Spectrogram r = rs.value(), d = ds.value();
    MiscAudio::PrepareSpectrogramsForComparison(r, d);
    std::unique_ptr<const ImagePatchCreator> creator;
    if (s->speech) creator = std::make_unique<const VadPatchCreator>(20);
    else creator = std::make_unique<const ImagePatchCreator>(30);
    auto ix = creator->CreateRefPatchIndices(r.Data(), s->ref, used);
    if (!ix.ok() || ix.value().empty()) {
      *out = "ok=0";
      return true;
    }
    s->idx = ix.value();
    s->ref_patches = creator->CreatePatchesFromIndices(r.Data(), s->idx);
    s->deg_patches = creator->CreatePatchesFromIndices(d.Data(), s->idx);
    s->spec = d.Data();
    delete (*all)[id];
    (*all)[id] = s.release();
    *out = "ok=1";
    return true;
  }
  auto it = all->find(id);
  if (it == all->end()) {
    *out = "noshared=1";
    return true;
  }
  const Shared& s = *it->second;
  Fnv f;
  if (n == "shared_sim") {
    auto b = builder_of(s.speech);
    AudioSignal deg = s.deg;
    auto r = s.v.CalculateSimilarity(s.ref, deg, &b, *s.win, s.patches.get(), s.sel.get(), s.map.get(), s.radius, o.n("noreal"));
    if (!r.ok()) {
      *out = "ok=0 msg=" + enc(std::string(r.status().message()));
      return true;
    }
    const auto& v = r.value();
    f.d(v.moslqo);
    f.d(v.vnsim);
    for (auto* x : {&v.fvnsim, &v.fvnsim10, &v.fstdnsim, &v.fvdegenergy, &v.center_freq_bands}) f.v(*x);
    for (auto& p : v.debug_info.patch_sims) add(&f, p);
    *out = "ok=1 mos=" + num(v.moslqo) + " h=" + h64(f);
  } else if (n == "shared_predict") {
    std::vector<double> x;
    size_t k = s.speech ? 21 : 32;
    for (size_t i = 0; i < k; i++) x.push_back(o.f("base", 0.9) + 0.05 * sin(o.n("s", 1) * 1.7 + i * 0.9));
    const SimilarityToQualityMapper* m = s.map.get();
    *out = "y=" + num(m->PredictQuality(x, x, x, x));
  } else if (n == "shared_nsim") {
    size_t a = o.n("s") % s.ref_patches.size(), b = (o.n("s") / 3) % s.deg_patches.size();
    add(&f, s.nsim.MeasurePatchSimilarity(s.ref_patches[a], s.deg_patches[b]));
    *out = "h=" + h64(f);
  } else if (n == "shared_window") {
    std::valarray<double> x(s.win->size);
    for (size_t i = 0; i < x.size(); i++) x[i] = o.n("s", 1) + 0.01 * (i % 17);
    auto y = s.win->ApplyHannWindow(x);
    f.v(std::vector<double>(std::begin(y), std::end(y)));
    *out = "h=" + h64(f);
  } else if (n == "shared_select") {
    auto r = s.sel->FindMostOptimalDegPatches(s.ref_patches, s.idx, s.spec, 0.02, o.n("win", 10));
    if (!r.ok()) {
      *out = "ok=0";
      return true;
    }
    for (auto& p : r.value()) add(&f, p);
    *out = "ok=1 h=" + h64(f);
  } else if (n == "shared_patches") {
    auto r = s.patches->CreateRefPatchIndices(s.spec, s.ref, *s.win);
    if (r.ok())
      for (size_t x : r.value()) f.d(x);
    for (auto& p : s.patches->CreatePatchesFromIndices(s.spec, s.idx)) add(&f, p);
    *out = "ok=" + std::to_string(r.ok()) + " h=" + h64(f);
  } else if (n == "shared_align") {
    auto r = Alignment::GloballyAlign(s.ref, s.deg);
    add(&f, std::get<0>(r).data_matrix);
    f.d(std::get<1>(r));
    *out = "h=" + h64(f);
  } else if (n == "shared_scale") {
    add(&f, MiscAudio::ScaleToMatchSoundPressureLevel(s.ref, s.deg).data_matrix);
    *out = "h=" + h64(f);
  } else {
    *out = "unknown=1";
  }
  return true;
}
