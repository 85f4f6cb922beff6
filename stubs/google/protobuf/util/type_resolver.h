#ifndef STUB_TR_H_
#define STUB_TR_H_
namespace google { namespace protobuf { namespace util { class TypeResolver { public: virtual ~TypeResolver() {} }; }}}
#endif
