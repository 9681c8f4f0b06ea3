#include "tensorflow/lite/model_builder.h"
