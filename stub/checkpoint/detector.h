// Stand-in for magistrate's detection idiom (declarations used by vt only).
#ifndef VERIF_STUB_DETECTOR_H
#define VERIF_STUB_DETECTOR_H
#include <type_traits>
namespace detection {
struct nonesuch {
  nonesuch() = delete;
  ~nonesuch() = delete;
  nonesuch(nonesuch const&) = delete;
  void operator=(nonesuch const&) = delete;
};
template <typename D, typename V, template <class...> class Op, typename... A>
struct detector { using value_t = std::false_type; using type = D; };
template <typename D, template <class...> class Op, typename... A>
struct detector<D, std::void_t<Op<A...>>, Op, A...> {
  using value_t = std::true_type; using type = Op<A...>;
};
template <template <class...> class Op, typename... A>
using is_detected = typename detector<nonesuch, void, Op, A...>::value_t;
template <template <class...> class Op, typename... A>
using detected_t = typename detector<nonesuch, void, Op, A...>::type;
template <typename D, template <class...> class Op, typename... A>
using detected_or_t = typename detector<D, void, Op, A...>::type;
template <typename To, template <class...> class Op, typename... A>
using is_detected_convertible = std::is_convertible<detected_t<Op, A...>, To>;
template <typename E, template <class...> class Op, typename... A>
using is_detected_exact = std::is_same<E, detected_t<Op, A...>>;
}
#endif
