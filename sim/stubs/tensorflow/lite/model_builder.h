// Stand-in for the part of TensorFlow Lite that the lattice mapper uses.  The
// score it computes is not the lattice model's; the call protocol, the statuses
// and the per-interpreter tensor state are.
#ifndef SIM_TFLITE_H
#define SIM_TFLITE_H
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5,
  kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7,
  kTfLiteCancelled = 8,
} TfLiteStatus;

typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2 } TfLiteType;
typedef union TfLitePtrUnion {
  float* f;
  char* raw;
  const char* raw_const;
  void* data;
} TfLitePtrUnion;
typedef struct TfLiteIntArray {
  int size;
  int data[1];
} TfLiteIntArray;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  size_t bytes;
  const char* name;
} TfLiteTensor;
inline TfLiteType TfLiteTensorType(const TfLiteTensor* t) { return t->type; }
inline void* TfLiteTensorData(const TfLiteTensor* t) { return t->data.raw; }
inline size_t TfLiteTensorByteSize(const TfLiteTensor* t) { return t->bytes; }
inline const char* TfLiteTensorName(const TfLiteTensor* t) { return t->name; }

enum { kTfLiteDelegateFlagsNone = 0, kTfLiteDelegateFlagsAllowDynamicTensors = 1 };
typedef struct TfLiteDelegate {
  void* data_;
  int64_t flags;
} TfLiteDelegate;

#define TFLITE_XNNPACK_DELEGATE_FLAG_QS8 0x1
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x2
typedef struct {
  int32_t num_threads;
  uint32_t flags;
} TfLiteXNNPackDelegateOptions;
inline TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault() {
  return TfLiteXNNPackDelegateOptions{0, 0};
}
TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions* options);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* delegate);

// Which backend step fails, decided by the simulator.
struct SimTfliteFaults {
  int build = 0;             // BuildFromFile returns null
  int set_threads = 0;       // status of SetNumThreads
  int build_interpreter = 0; // status of InterpreterBuilder::operator()
  int allocate = 0;          // status of AllocateTensors
  int delegate = 0;          // status of ModifyGraphWithDelegate
  int no_signature = 0;      // GetSignatureRunner returns null
  int invoke = 0;            // status of Invoke
  int invoke_after = 0;      // ... only from this call on
  int invoke_calls = 0;
};
extern SimTfliteFaults g_sim_tflite_faults;
extern int g_sim_tflite_live;  // live interpreters + models + delegates

namespace tflite {

class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename);
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromFile(const char* filename) {
    return BuildFromFile(filename);
  }
  bool initialized() const { return true; }
  ~FlatBufferModel();
  unsigned weight() const { return weight_; }

 private:
  explicit FlatBufferModel(unsigned w);
  unsigned weight_;
};

namespace ops {
namespace builtin {
class BuiltinOpResolver {};
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {};
}  // namespace builtin
}  // namespace ops

class SignatureRunner {
 public:
  explicit SignatureRunner(const FlatBufferModel* model);
  TfLiteTensor* input_tensor(const char* name);
  const TfLiteTensor* output_tensor(const char* name) const;
  TfLiteStatus Invoke();
  TfLiteStatus AllocateTensors() { return kTfLiteOk; }
  const std::string& signature_key() const { return key_; }
  size_t input_size() const { return names_.size(); }
  size_t output_size() const { return 1; }
  const std::vector<const char*>& input_names() const { return input_names_; }
  const std::vector<const char*>& output_names() const { return output_names_; }

  const TfLiteDelegate* delegate = nullptr;

 private:
  const FlatBufferModel* model_;  // not owned, as in TensorFlow Lite
  std::vector<std::string> names_;
  std::vector<float> values_;
  std::vector<TfLiteTensor> tensors_;
  std::string key_ = "predict";
  std::vector<const char*> input_names_;
  std::vector<const char*> output_names_;
  TfLiteIntArray dims_ = {1, {1}};
  float out_;
  TfLiteTensor out_tensor_;
};

class Interpreter {
 public:
  explicit Interpreter(const FlatBufferModel* model);
  ~Interpreter();
  TfLiteStatus AllocateTensors();
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* delegate);
  SignatureRunner* GetSignatureRunner(const char* signature_key);
  std::vector<const std::string*> signature_keys() const;
  TfLiteStatus SetNumThreads(int) { return kTfLiteOk; }

 private:
  // Not owned: both must outlive the interpreter.
  const FlatBufferModel* model_;
  bool no_signature_;
  TfLiteDelegate* delegate_ = nullptr;
  bool allocated_ = false;
  std::unique_ptr<SignatureRunner> runner_;
};

class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model,
                     const ops::builtin::BuiltinOpResolver& resolver);
  TfLiteStatus SetNumThreads(int num_threads);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter);

 private:
  const FlatBufferModel* model_;
};

}  // namespace tflite
#endif
