#include "tensorflow/lite/interpreter.h"
