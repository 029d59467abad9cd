#ifndef VERIF_ASYNC_GRPC_TYPE_TRAITS_H_
#define VERIF_ASYNC_GRPC_TYPE_TRAITS_H_
#include <type_traits>
namespace async_grpc {
template <typename T> struct Stream { using type = T; };
template <typename T> struct StripImpl { using type = T; static constexpr bool streaming = false; };
template <typename T> struct StripImpl<Stream<T>> { using type = T; static constexpr bool streaming = true; };
template <typename T> using StripStream = typename StripImpl<T>::type;
}  // namespace async_grpc
#define DEFINE_HANDLER_SIGNATURE(traits, request_type, response_type, method_name) \
  struct traits {                                                                  \
    using IncomingType = request_type;                                             \
    using OutgoingType = response_type;                                            \
    static const char* MethodName() { return method_name; }                        \
  };
#endif
