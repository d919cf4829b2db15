// JSON format under test: json::format_traits with the features named by macros switched on
#ifndef JFMT_HPP_
#define JFMT_HPP_
#include "vh.hpp"
#include "cxon/json.hxx"
#ifdef VH_CXCF
#   include "cxon/cxcf.hxx"
#endif
#ifndef VH_BASE
#   ifdef VH_CXCF
#       define VH_BASE cxon::cxcf::format_traits
#   else
#       define VH_BASE cxon::json::format_traits
#   endif
#endif
struct vh_traits : VH_BASE {
#ifdef VH_CM
    static constexpr bool allow_comments = VH_CM;
#endif
#ifdef VH_TS
    static constexpr bool allow_trailing_separators = VH_TS;
#endif
#ifdef VH_JN
    static constexpr bool allow_javascript_nans = VH_JN;
#endif
#ifdef VH_UQ
    static constexpr bool unquote_quoted_keys = VH_UQ;
#endif
#ifdef VH_QU
    static constexpr bool quote_unquoted_keys = VH_QU;
#endif
#ifdef VH_JS
    static constexpr bool produce_strict_javascript = VH_JS;
#endif
#ifdef VH_NE
    static constexpr bool assume_no_escapes = VH_NE;
#endif
#ifdef VH_DUP
    static constexpr bool assume_unique_object_keys = false;
#endif
#ifdef VH_STRICTNUM
    struct number : VH_BASE::number { static constexpr bool strict = true; };
#endif
};
using FMT = cxon::JSON<vh_traits>;
#endif
