// The operations a scenario can perform on the real code.  Compiled with the
// same instrumentation as the code under test.
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <exception>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <typeinfo>

#include "analysis_window.h"
#include "audio_signal.h"
#include "commandline_parser.h"
#include "comparison_patches_selector.h"
#include "convolution_2d.h"
#include "file_path.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "memprobe.h"
#include "misc_audio.h"
#include "misc_math.h"
#include "neurogram_similiarity_index_measure.h"
#include "ops.h"
#include "rms_vad.h"
#include "sim_results_writer.h"
#include "simfs.h"
#include "spectrogram.h"
#include "src/proto/similarity_result.pb.h"
#include "src/proto/visqol_config.pb.h"
#include "support_vector_regression_model.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tensorflow/lite/model_builder.h"
#include "training_data_file_reader.h"
#include "vad_patch_creator.h"
#include "visqol_api.h"
#include "visqol_manager.h"
#include "wav_reader.h"

using namespace Visqol;

int visqol_main(int argc, char** argv);

// A byte stream whose every refill, end and failure the scenario decides.
class FaultStreamBuf : public std::streambuf {
 public:
  FaultStreamBuf(std::string data, const OpLine& o)
      : data_(std::move(data)), chunk_(o.n("chunk", 4096)), fail_(o.n("failat", -1)),
        fail_throw_(o.s("failkind", "throw") == "throw"), noseek_(o.n("noseek")), buf_(chunk_ > 0 ? chunk_ : 1) {
    std::string l = o.s("pauses") + ",";
    for (size_t a = 0, b; (b = l.find(',', a)) != std::string::npos; a = b + 1)
      if (b > a) pauses_.push_back(atol(l.substr(a, b - a).c_str()));
  }
  long refills = 0, seeks = 0, failures = 0;

 protected:
  int_type underflow() override {
    refills++;
    size_t end = data_.size();
    if (fail_ >= 0 && pos_ >= (size_t)fail_) {
      failures++;
      note(fail_throw_ ? "throw@stream" : "eof@stream");
      if (fail_throw_) throw std::ios_base::failure("simulated I/O error");
      return traits_type::eof();
    }
    if (fail_ >= 0 && end > (size_t)fail_) end = fail_;
    if (pos_ >= end) return traits_type::eof();
    for (size_t k = 0; k < pauses_.size(); k++) {
      if (pauses_[k] == (long)pos_) {
        // Nothing more for now.
        pauses_.erase(pauses_.begin() + k);
        note("pause@stream");
        return traits_type::eof();
      }
      if (pauses_[k] > (long)pos_ && pauses_[k] < (long)end) end = pauses_[k];
    }
    size_t n = std::min(buf_.size(), end - pos_);
    memcpy(buf_.data(), data_.data() + pos_, n);
    pos_ += n;
    setg(buf_.data(), buf_.data(), buf_.data() + n);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override {
    seeks++;
    if (noseek_) {
      note("noseek@stream");
      return pos_type(off_type(-1));
    }
    off_type cur = (off_type)pos_ - (egptr() - gptr());
    off_type p = off + (d == std::ios::cur ? cur : d == std::ios::end ? (off_type)data_.size() : 0);
    if (d == std::ios::cur && off == 0) return pos_type(cur);
    if (p < 0 || p > (off_type)data_.size()) return pos_type(off_type(-1));
    pos_ = (size_t)p;
    setg(nullptr, nullptr, nullptr);
    return pos_type(p);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }

 private:
  static void note(const char* k) {
    simfs::Guard g;
    simfs::fired[k]++;
  }
  std::string data_;
  size_t pos_ = 0;
  long chunk_, fail_;
  bool fail_throw_, noseek_;
  std::vector<char> buf_;
  std::vector<long> pauses_;
};

struct ReaderHolder {
  std::unique_ptr<FaultStreamBuf> buf;
  std::unique_ptr<std::istream> in;
  std::unique_ptr<WavReader> r;
};

struct World {
  std::map<std::string, std::unique_ptr<VisqolManager>> mgr;
  std::map<std::string, std::unique_ptr<VisqolApi>> api;
  std::map<std::string, ReaderHolder> reader;
  std::map<std::string, std::unique_ptr<SupportVectorRegressionModel>> svm;
  std::map<std::string, std::unique_ptr<SvrSimilarityToQualityMapper>> mapper;
  std::set<std::string> unloaded;  // models whose last load was refused
  std::map<std::string, std::unique_ptr<GammatoneSpectrogramBuilder>> builder;
  std::map<std::string, std::unique_ptr<RmsVad>> vad;
  std::map<std::string, std::unique_ptr<ComparisonPatchesSelector>> sel;
  std::map<std::string, std::vector<double>> buffers;  // shared read-only inputs
};
World* new_world() { return new World(); }
void delete_world(World* w) { delete w; }

static std::string num(double d) {
  char b[64];
  if (d != d) return "nan";
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
static std::string u64(uint64_t h) {
  char b[32];
  snprintf(b, sizeof b, "%016lx", (unsigned long)h);
  return b;
}
static std::string hexd(const double* p, size_t n) { return hex(std::string((const char*)p, n * 8)); }

static uint64_t hash_msg(const SimilarityResultMsg& m) {
  Fnv f;
  f.d(m.moslqo());
  f.d(m.vnsim());
  for (double x : m.fvnsim()) f.d(x);
  for (double x : m.fvnsim10()) f.d(x);
  for (double x : m.fstdnsim()) f.d(x);
  for (double x : m.fvdegenergy()) f.d(x);
  for (double x : m.center_freq_bands()) f.d(x);
  for (auto& p : m.patch_sims()) {
    f.d(p.similarity());
    for (double x : p.freq_band_means()) f.d(x);
    f.d(p.ref_patch_start_time());
    f.d(p.ref_patch_end_time());
    f.d(p.deg_patch_start_time());
    f.d(p.deg_patch_end_time());
  }
  f.d(m.alignment_lag_s());
  return f.h;
}
static std::string join(const google::protobuf::RepeatedField<double>& v) {
  std::string s;
  for (double x : v) s += (s.empty() ? "" : ",") + num(x);
  return s;
}
static std::string patches(const SimilarityResultMsg& m) {
  std::string s;
  for (auto& p : m.patch_sims()) {
    for (double x : {p.similarity(), p.ref_patch_start_time(), p.ref_patch_end_time(), p.deg_patch_start_time(), p.deg_patch_end_time()})
      s += num(x) + ",";
    s += join(p.freq_band_means()) + ";";
  }
  return s;
}
static std::string describe(const absl::StatusOr<SimilarityResultMsg>& r, bool full) {
  if (!r.ok())
    return "ok=0 code=" + std::to_string((int)r.status().code()) + " msg=" + enc(std::string(r.status().message()));
  const auto& m = r.value();
  std::string s = "ok=1 mos=" + num(m.moslqo()) + " h=" + u64(hash_msg(m)) + " vnsim=" + num(m.vnsim()) +
                  " np=" + std::to_string(m.patch_sims_size()) + " nb=" + std::to_string(m.fvnsim_size()) +
                  " lag=" + num(m.alignment_lag_s()) + " ref=" + enc(m.reference_filepath()) +
                  " deg=" + enc(m.degraded_filepath());
  if (full)
    s += " fvnsim=" + join(m.fvnsim()) + " fvnsim10=" + join(m.fvnsim10()) + " fstdnsim=" + join(m.fstdnsim()) +
         " fvdegenergy=" + join(m.fvdegenergy()) + " cfb=" + join(m.center_freq_bands()) + " pt=" + patches(m);
  return s;
}
static std::string st(const absl::Status& s) {
  return s.ok() ? "ok=1" : "ok=0 code=" + std::to_string((int)s.code()) + " msg=" + enc(std::string(s.message()));
}

static AudioSignal to_signal(const std::vector<double>& v, size_t sr) {
  AudioSignal s;
  s.data_matrix = AMatrix<double>(v);
  s.sample_rate = sr;
  return s;
}

static SimilarityResultMsg synth_msg(const OpLine& o) {
  SimilarityResultMsg m;
  uint64_t x = (uint64_t)o.n("s", 1) * 0x9e3779b97f4a7c15ull + 77;
  auto u = [&]() {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (double)(x >> 11) / 9007199254740992.0;
  };
  m.set_moslqo(o.has("mos") ? o.f("mos") : 1 + 4 * u());
  m.set_vnsim(u());
  int nb = o.n("nb", 3);
  for (int i = 0; i < nb; i++) {
    m.add_fvnsim(u());
    m.add_fvnsim10(u());
    m.add_fstdnsim(u() * 0.2);
    m.add_fvdegenergy(u() * 100);
    m.add_center_freq_bands(50 * (i + 1));
  }
  for (int p = 0; p < o.n("np", 1); p++) {
    auto* q = m.add_patch_sims();
    q->set_similarity(u());
    for (int i = 0; i < nb; i++) q->add_freq_band_means(u());
    q->set_ref_patch_start_time(p * 0.6);
    q->set_ref_patch_end_time(p * 0.6 + 0.6);
    q->set_deg_patch_start_time(p * 0.6);
    q->set_deg_patch_end_time(p * 0.6 + 0.6);
  }
  m.set_reference_filepath(o.s("ref", "r.wav"));
  m.set_degraded_filepath(o.s("deg", "d.wav"));
  return m;
}

static VisqolConfig make_config(const OpLine& o) {
  VisqolConfig c;
  if (!o.n("noaudio")) {
    auto* a = c.mutable_audio();
    a->set_sample_rate(o.n("sr", 1000));
  }
  if (!o.n("noopts")) {
    auto* p = c.mutable_options();
    p->set_svr_model_path(o.s("m"));
    p->set_use_speech_scoring(o.n("speech"));
    p->set_allow_unsupported_sample_rates(o.n("override", 1));
    p->set_use_unscaled_speech_mos_mapping(o.n("unscaled"));
    p->set_search_window_radius(o.n("win"));
    p->set_use_lattice_model(o.n("lattice"));
  }
  return c;
}

static const std::vector<double>& buffer(World* w, const std::string& spec, std::vector<double>* tmp) {
  if (!spec.empty() && spec[0] == '@') return w->buffers[spec.substr(1)];
  // The signal is the simulator's; the copy is the caller's, and can fail.
  std::vector<double>* v;
  {
    simfs::Guard g;
    v = new std::vector<double>(make_signal(spec));
  }
  struct Drop {
    std::vector<double>* v;
    ~Drop() {
      simfs::Guard g;
      delete v;
    }
  } drop{v};
  *tmp = *v;
  return *tmp;
}

static std::string run_op_inner(World* w, const OpLine& o) {
  const std::string& n = o.name;
  std::string id = o.s("id", "0");
  if (n == "buf") {
    std::vector<double> t;
    w->buffers[id] = buffer(w, o.s("sig"), &t);
    return "n=" + std::to_string(w->buffers[id].size());
  }
  if (n == "mgr_new") {
    w->mgr[id] = std::make_unique<VisqolManager>();
    return "";
  }
  if (n == "mgr_del") {
    w->mgr.erase(id);
    return "";
  }
  if (n == "mgr_init") {
    auto& m = w->mgr[id];
    if (!m) m = std::make_unique<VisqolManager>();
    if (o.n("sv")) {
      std::string path = o.s("m");
      return st(m->Init(absl::string_view(path), o.n("speech"), o.n("unscaled"), o.n("win", 60), o.n("lattice"), o.n("nogal"), o.n("noreal")));
    }
    return st(m->Init(FilePath(o.s("m")), o.n("speech"), o.n("unscaled"), o.n("win", 60), o.n("lattice"), o.n("nogal"),
                      o.n("noreal")));
  }
  if (n == "mgr_run") {
    auto& m = w->mgr[id];
    if (!m) m = std::make_unique<VisqolManager>();
    auto r = m->Run(FilePath(o.s("ref")), FilePath(o.s("deg")));
    std::string d = describe(r, o.n("full"));
    if (r.ok() && (o.has("csv") || o.has("json") || o.n("verbose"))) {
      SimilarityResultsWriter::Write(o.n("verbose"), FilePath(o.s("csv")), FilePath(o.s("json")), r.value(),
                                     o.n("speech"), o.n("lattice"));
    }
    return d;
  }
  if (n == "mgr_sig") {
    auto& m = w->mgr[id];
    if (!m) m = std::make_unique<VisqolManager>();
    std::vector<double> t1, t2;
    AudioSignal ref = to_signal(buffer(w, o.s("ref"), &t1), o.n("sr", 1000));
    AudioSignal deg = to_signal(buffer(w, o.s("deg"), &t2), o.n("srd", o.n("sr", 1000)));
    Fnv a;
    a.v(ref.data_matrix.ToVector());
    auto r = m->Run(ref, deg);
    Fnv b;
    b.v(ref.data_matrix.ToVector());
    return describe(r, o.n("full")) + " refsame=" + std::to_string(a.h == b.h);
  }
  if (n == "api_new") {
    w->api[id] = std::make_unique<VisqolApi>();
    return "";
  }
  if (n == "api_del") {
    w->api.erase(id);
    return "";
  }
  if (n == "api_create") {
    auto& a = w->api[id];
    if (!a) a = std::make_unique<VisqolApi>();
    return st(a->Create(make_config(o)));
  }
  if (n == "api_run") {
    auto& a = w->api[id];
    if (!a) a = std::make_unique<VisqolApi>();
    std::vector<double> t1, t2;
    bool shared = o.s("ref")[0] == '@' || o.s("deg")[0] == '@';
    const std::vector<double>& r0 = buffer(w, o.s("ref"), &t1);
    bool alias = o.n("alias");
    const std::vector<double>& d0 = alias ? r0 : buffer(w, o.s("deg"), &t2);
    Fnv b1;
    if (!shared) { b1.v(r0); b1.v(d0); }
    absl::Span<double> rs(const_cast<double*>(r0.data()), r0.size());
    absl::Span<double> ds(const_cast<double*>(d0.data()), d0.size());
    auto r = a->Measure(rs, ds);
    Fnv b2;
    if (!shared) { b2.v(r0); b2.v(d0); }
    return describe(r, o.n("full")) + " bufsame=" + std::to_string(b1.h == b2.h);
  }
  if (n == "load" || n == "loadstream") {
    AudioSignal s;
    memprobe::reset();
    long before = memprobe::live_bytes();
    if (n == "load") {
      s = MiscAudio::LoadAsMono(FilePath(o.s("p")));
    } else {
      std::stringstream ss;
      std::string d = unhex(o.s("hex"));
      ss.write(d.data(), d.size());
      if (o.has("pos")) ss.seekg(o.n("pos"));
      if (o.s("state") == "bad") ss.setstate(std::ios::badbit);
      if (o.s("state") == "fail") ss.setstate(std::ios::failbit);
      if (o.s("state") == "eof") ss.setstate(std::ios::eofbit);
      memprobe::reset();
      before = memprobe::live_bytes();
      s = MiscAudio::LoadAsMono(&ss);
    }
    long peak = memprobe::peak_bytes() - before;
    long big = memprobe::max_single();
    std::vector<double> v;
    if (s.data_matrix.NumElements()) v = s.data_matrix.ToVector();
    std::string r = "rows=" + std::to_string(s.data_matrix.NumRows()) + " cols=" + std::to_string(s.data_matrix.NumCols()) +
                    " peak=" + std::to_string(peak) + " big=" + std::to_string(big);
    if (v.empty()) return r + " sr=" + std::to_string(o.n("showsr") ? s.sample_rate : 0);
    r += " sr=" + std::to_string(s.sample_rate);
    if (v.size() <= 20000)
      r += " data=" + hexd(v.data(), v.size());
    else {
      Fnv f;
      f.v(v);
      r += " h=" + u64(f.h);
    }
    return r;
  }
  if (n == "reader_new") {
    ReaderHolder h;
    h.buf = std::make_unique<FaultStreamBuf>(unhex(o.s("hex")), o);
    h.in = std::make_unique<std::istream>(h.buf.get());
    h.r = std::make_unique<WavReader>(h.in.get());
    bool ok = h.r->IsHeaderValid();
    std::string s = "valid=" + std::to_string(ok);
    if (ok)
      s += " total=" + std::to_string(h.r->GetNumTotalSamples()) + " ch=" + std::to_string(h.r->GetNumChannels()) +
           " sr=" + std::to_string(h.r->GetSampleRateHz()) + " dur=" + num(h.r->GetDuration());
    w->reader[id] = std::move(h);
    return s;
  }
  if (n == "reader_read") {
    auto it = w->reader.find(id);
    if (it == w->reader.end()) return "noreader=1";
    size_t want = o.n("n");
    if (o.n("clear")) it->second.in->clear();
    const size_t kGuard = 32;
    std::vector<int16_t> b(want + kGuard, (int16_t)0x5a5a);
    size_t got = it->second.r->ReadSamples(want, b.data());
    bool guard = true;
    for (size_t i = want; i < want + kGuard; i++) guard &= b[i] == (int16_t)0x5a5a;
    size_t shown = std::min(got, want);
    return "got=" + std::to_string(got) + " guard=" + std::to_string(guard) +
           " total=" + std::to_string(it->second.r->GetNumTotalSamples()) +
           " data=" + hex(std::string((char*)b.data(), shown * 2));
  }
  if (n == "csv_write") {
    simfs::in_sim++;
    SimilarityResultMsg msg = synth_msg(o);
    simfs::in_sim--;
    SimilarityResultsWriter::Write(o.n("verbose"), FilePath(o.s("csv")), FilePath(o.s("json")), msg, o.n("speech"), o.n("lattice"));
    return "";
  }
  if (n == "batch") {
    CommandLineArgs args{};
    args.batch_input_csv = FilePath(o.s("p"));
    auto v = VisqolCommandLineParser::BuildFilePairPaths(args);
    std::string s = "n=" + std::to_string(v.size()) + " rows=";
    for (auto& p : v) s += enc(enc(p.reference.Path()) + "," + enc(p.degraded.Path()) + "\n");
    return s;
  }
  if (n == "train_read") {
    auto v = TrainingDataFileReader::Read(FilePath(o.s("p")), o.s("delim", ",")[0]);
    std::string s = "n=" + std::to_string(v.size()) + " rows=";
    for (auto& r : v) {
      for (double x : r) s += num(x) + ",";
      s += ";";
    }
    return s;
  }
  if (n == "svm_load") {
    auto m = std::make_unique<SupportVectorRegressionModel>();
    auto s = m->Init(FilePath(o.s("p")));
    if (s.ok()) {
      w->svm[id] = std::move(m);
      w->unloaded.erase(id);
    }
    return st(s);
  }
  if (n == "svm_reload") {
    auto& m = w->svm[id];
    if (!m) m = std::make_unique<SupportVectorRegressionModel>();
    auto s = m->Init(FilePath(o.s("p")));
    // The object is kept and may be loaded again, but not used until then.
    if (s.ok()) w->unloaded.erase(id);
    else w->unloaded.insert(id);
    return st(s);
  }
  if (n == "svm_del") {
    w->svm.erase(id);
    return "";
  }
  if (n == "svm_predict") {
    auto& m = w->svm[id];
    if (!m || w->unloaded.count(id)) return "nomodel=1";
    OpLine t = o;
    std::vector<double> x;
    double base = o.f("base", 0.9);
    for (int i = 0; i < o.n("f", 32); i++) x.push_back(base + 0.05 * sin(o.n("s", 1) * 1.7 + i * 0.9));
    return "y=" + num(m->Predict(x));
  }
  if (n == "svm_train") {
    // Into a new model, or into the one that is there.
    std::unique_ptr<SupportVectorRegressionModel> fresh;
    SupportVectorRegressionModel* m = o.n("in") ? w->svm[id].get() : nullptr;
    if (!m) {
      fresh = std::make_unique<SupportVectorRegressionModel>();
      m = fresh.get();
    }
    std::vector<std::vector<double>> obs;
    std::vector<double> t;
    for (int r = 0; r < o.n("rows", 12); r++) {
      std::vector<double> x;
      for (int i = 0; i < o.n("f", 4); i++) x.push_back(0.5 + 0.4 * sin(o.n("s", 1) + r * 1.3 + i * 2.1));
      t.push_back(3 + x[0]);
      obs.push_back(x);
    }
    if (!fresh) w->unloaded.insert(id);
    m->Init(obs, t);
    if (fresh) w->svm[id] = std::move(fresh);
    w->unloaded.erase(id);
    return "";
  }
  if (n == "mapper_reload") {
    auto& m = w->mapper[id];
    if (!m) m = std::make_unique<SvrSimilarityToQualityMapper>(FilePath(o.s("p")));
    auto s = m->Init();
    if (s.ok()) w->unloaded.erase("mapper " + id);
    else w->unloaded.insert("mapper " + id);
    return st(s);
  }
  if (n == "mapper_load") {
    auto m = std::make_unique<SvrSimilarityToQualityMapper>(FilePath(o.s("p")));
    auto s = m->Init();
    if (s.ok()) {
      w->mapper[id] = std::move(m);
      w->unloaded.erase("mapper " + id);
    }
    return st(s);
  }
  if (n == "mapper_predict") {
    auto it = w->mapper.find(id);
    if (it == w->mapper.end() || w->unloaded.count("mapper " + id)) return "nomapper=1";
    std::vector<double> x;
    double base = o.f("base", 0.9);
    for (int i = 0; i < o.n("f", 32); i++) x.push_back(base + 0.05 * sin(o.n("s", 1) * 1.7 + i * 0.9));
    const SvrSimilarityToQualityMapper* c = it->second.get();
    return "y=" + num(c->PredictQuality(x, x, x, x));
  }
  if (n == "builder_new") {
    bool sp = o.n("speech");
    w->builder[id] = std::make_unique<GammatoneSpectrogramBuilder>(
        GammatoneFilterBank{(size_t)o.n("bands", sp ? 21 : 32), o.f("minf", 50)}, sp);
    return "";
  }
  if (n == "build") {
    auto it = w->builder.find(id);
    if (it == w->builder.end()) return "nobuilder=1";
    std::vector<double> t;
    AudioSignal s = to_signal(buffer(w, o.s("sig"), &t), o.n("sr", 1000));
    AnalysisWindow win{s.sample_rate, o.f("ov", 0.25), o.f("wd", 0.08)};
    auto r = it->second->Build(s, win);
    if (!r.ok()) return st(r.status());
    Fnv f;
    f.v(r.value().Data().ToVector());
    f.v(std::vector<double>(r.value().GetCenterFreqBands()));
    return "ok=1 rows=" + std::to_string(r.value().Data().NumRows()) + " cols=" + std::to_string(r.value().Data().NumCols()) +
           " h=" + u64(f.h);
  }
  if (n == "window") {
    AnalysisWindow win{(size_t)o.n("sr", 1000), o.f("ov", 0.25), o.f("wd", 0.08)};
    std::valarray<double> x(win.size);
    for (size_t i = 0; i < x.size(); i++) x[i] = 1 + 0.01 * (i % 17);
    auto y = win.ApplyHannWindow(x);
    Fnv f;
    f.v(std::vector<double>(std::begin(y), std::end(y)));
    return "n=" + std::to_string(win.size) + " h=" + u64(f.h);
  }
  if (n == "vadpatch") {
    VadPatchCreator c(o.n("patch", 20));
    std::vector<double> t;
    AudioSignal s = to_signal(buffer(w, o.s("sig"), &t), o.n("sr", 1000));
    AnalysisWindow win{s.sample_rate, 0.25};
    size_t cols = o.n("cols", s.data_matrix.NumRows() < win.size ? 1 : 1 + (s.data_matrix.NumRows() - win.size) / (size_t)(win.size * 0.25));
    AMatrix<double> spec = AMatrix<double>::Filled(4, cols, 0.0);
    auto r = c.CreateRefPatchIndices(spec, s, win);
    if (!r.ok()) return st(r.status());
    std::string d = "ok=1 idx=";
    for (size_t i : r.value()) d += std::to_string(i) + ",";
    return d;
  }
  if (n == "cli") {
    std::vector<std::string> a = {"visqol"};
    for (int i = 0; o.has(("a" + std::to_string(i)).c_str()); i++) a.push_back(o.s(("a" + std::to_string(i)).c_str()));
    std::vector<char*> argv;
    for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
    argv.push_back(nullptr);
    int rc = visqol_main((int)a.size(), argv.data());
    return "rc=" + std::to_string(rc);
  }
  return "unknown=1";
}

// Leaves junk where the next call's locals will be.
__attribute__((noinline)) static void dirty_stack(uint64_t seed) {
  volatile uint64_t junk[6000];
  for (int i = 0; i < 6000; i++) junk[i] = seed == 1 ? 0 : seed == 2 ? ~0ull : (seed * 0x9e3779b97f4a7c15ull) >> (i % 50);
  asm volatile("" ::"r"(junk) : "memory");
}

std::string run_op(World* w, const OpLine& o) {
  if (o.has("stack")) dirty_stack(o.n("stack"));
  bool nofail = !o.has("allocfail");
  std::string r;
  struct {
    long n = 0;
    bool hit = false;
  } tail;
  try {
    if (!nofail) memprobe::fail_at(o.n("allocfail"));
    r = run_op_inner(w, o);
    if (!nofail) {
      tail.n = memprobe::allocs();
      tail.hit = memprobe::failed();
      memprobe::fail_at(0);
    }
  } catch (const std::bad_alloc&) {
    tail.hit = memprobe::failed();
    memprobe::fail_at(0);
    r = "exc=bad_alloc";
  } catch (const std::exception& e) {
    memprobe::fail_at(0);
    r = std::string("exc=") + enc(typeid(e).name()) + " what=" + enc(e.what());
  } catch (...) {
    memprobe::fail_at(0);
    r = "exc=unknown";
  }
  if (!nofail) r += " allocs=" + std::to_string(tail.n) + " allochit=" + std::to_string(tail.hit);
  return r;
}
