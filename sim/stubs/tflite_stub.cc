#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include "tensorflow/lite/model_builder.h"

SimTfliteFaults g_sim_tflite_faults;
int g_sim_tflite_live = 0;

TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions*) {
  __atomic_fetch_add(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
  return new TfLiteDelegate{nullptr, 0};
}
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) {
  if (!d) return;
  __atomic_fetch_sub(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
  delete d;
}

namespace tflite {

FlatBufferModel::FlatBufferModel(unsigned w) : weight_(w) {
  __atomic_fetch_add(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
}
FlatBufferModel::~FlatBufferModel() {
  __atomic_fetch_sub(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
}

std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromFile(
    const char* filename) {
  if (g_sim_tflite_faults.build) return nullptr;
  FILE* f = fopen(filename, "rb");
  if (!f) return nullptr;
  uint32_t h = 2166136261u;
  size_t n = 0, got;
  char head[8] = {0};
  char buf[65536];
  while ((got = fread(buf, 1, sizeof buf, f)) > 0) {
    for (size_t i = 0; i < got; i++) {
      if (n + i < 8) head[n + i] = buf[i];
      h = (h ^ (unsigned char)buf[i]) * 16777619u;
    }
    n += got;
  }
  bool bad = ferror(f);
  fclose(f);
  if (bad || n < 8 || memcmp(head + 4, "TFL3", 4) != 0) return nullptr;
  return std::unique_ptr<FlatBufferModel>(new FlatBufferModel(h));
}

SignatureRunner::SignatureRunner(const FlatBufferModel* model) : model_(model) {
  static const char* const kBase[] = {"fvnsim", "fvnsim10_", "fstdnsim",
                                      "fvdegenergy"};
  for (int b = 0; b < 21; b++)
    for (const char* base : kBase) names_.push_back(absl::StrCat(base, b));
  names_.push_back("tau");
  values_.assign(names_.size(), 0.0f);
  for (size_t i = 0; i < names_.size(); i++) {
    TfLiteTensor t;
    t.type = kTfLiteFloat32;
    t.dims = &dims_;
    t.bytes = sizeof(float);
    t.data.f = &values_[i];
    t.name = names_[i].c_str();
    input_names_.push_back(t.name);
    tensors_.push_back(t);
  }
  out_ = 0;
  out_tensor_ = {kTfLiteFloat32, {}, &dims_, sizeof(float), nullptr};
  output_names_.push_back("predictions");
  out_tensor_.data.f = &out_;
  out_tensor_.name = "predictions";
}
TfLiteTensor* SignatureRunner::input_tensor(const char* name) {
  for (auto& t : tensors_)
    if (!strcmp(t.name, name)) return &t;
  return nullptr;
}
const TfLiteTensor* SignatureRunner::output_tensor(const char* name) const {
  return strcmp(name, "predictions") ? nullptr : &out_tensor_;
}
TfLiteStatus SignatureRunner::Invoke() {
  int n = __atomic_add_fetch(&g_sim_tflite_faults.invoke_calls, 1, __ATOMIC_RELAXED);
  if (g_sim_tflite_faults.invoke && n > g_sim_tflite_faults.invoke_after)
    return (TfLiteStatus)g_sim_tflite_faults.invoke;
  // A fixed, monotone-ish function of all inputs; the model's bytes choose a
  // small per-model offset so that two models give two scores.
  double s = 0, w = 0;
  // A delegated graph runs on its delegate's data.
  if (delegate) s += 0.0 * (double)delegate->flags;
  for (size_t i = 0; i + 1 < values_.size(); i++) {
    int feature = i % 4;
    double k = feature == 0 ? 1.0 : feature == 1 ? 0.5 : feature == 2 ? -0.05 : 0.001;
    double v = values_[i];
    if (feature == 3) v = v / (1 + fabs(v));
    s += k * v * (1 + 0.01 * (double)(i % 7));
    w += k > 0 ? k : 0;
  }
  double x = s / w + 0.0001 * (double)(model_->weight() % 97) + 0.1 * (values_.back() - 0.5);
  double mos = 1 + 4 / (1 + exp(-8 * (x - 0.6)));
  out_ = (float)mos;
  return kTfLiteOk;
}

Interpreter::Interpreter(const FlatBufferModel* model)
    : model_(model), no_signature_(g_sim_tflite_faults.no_signature) {
  __atomic_fetch_add(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
}
Interpreter::~Interpreter() {
  // Tearing down visits the model's buffers and the delegate's kernels.
  volatile int64_t use = model_->weight() + (delegate_ ? delegate_->flags : 0);
  (void)use;
  __atomic_fetch_sub(&g_sim_tflite_live, 1, __ATOMIC_RELAXED);
}
TfLiteStatus Interpreter::AllocateTensors() {
  if (g_sim_tflite_faults.allocate)
    return (TfLiteStatus)g_sim_tflite_faults.allocate;
  allocated_ = true;
  return kTfLiteOk;
}
TfLiteStatus Interpreter::ModifyGraphWithDelegate(TfLiteDelegate* d) {
  if (!g_sim_tflite_faults.delegate) delegate_ = d;
  return (TfLiteStatus)g_sim_tflite_faults.delegate;
}
SignatureRunner* Interpreter::GetSignatureRunner(const char* key) {
  if (no_signature_ || strcmp(key, "predict"))
    return nullptr;
  if (!runner_) {
    runner_.reset(new SignatureRunner(model_));
    runner_->delegate = delegate_;
  }
  return runner_.get();
}

std::vector<const std::string*> Interpreter::signature_keys() const {
  static const std::string kPredict = "predict";
  std::vector<const std::string*> keys;
  if (!no_signature_) keys.push_back(&kPredict);
  return keys;
}

InterpreterBuilder::InterpreterBuilder(const FlatBufferModel& model,
                                       const ops::builtin::BuiltinOpResolver&)
    : model_(&model) {}
TfLiteStatus InterpreterBuilder::SetNumThreads(int) {
  return (TfLiteStatus)g_sim_tflite_faults.set_threads;
}
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* i) {
  if (g_sim_tflite_faults.build_interpreter) {
    i->reset();
    return (TfLiteStatus)g_sim_tflite_faults.build_interpreter;
  }
  i->reset(new Interpreter(model_));
  return kTfLiteOk;
}
}  // namespace tflite
