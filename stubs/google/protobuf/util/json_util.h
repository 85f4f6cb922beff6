#include <google/protobuf/message.h>
#include <google/protobuf/stubs/status.h>
