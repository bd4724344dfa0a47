#include <fu/int.h>
#include <fu/str.h>
#include <fu/view.h>
#include <fu/never.h>
#include <fu/default.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/init_priority.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/view_assign.h>


                                #ifndef STR_9rQhCMeuBl1
                                #define STR_9rQhCMeuBl1
static const fu::str str_9rQhCMeuBl1 fu_INIT_PRIORITY(1001) { "parseVarint: missing trailer"_fu };
                                #endif

                                #ifndef STR_JKVsI1EBhHj
                                #define STR_JKVsI1EBhHj
static const fu::str str_JKVsI1EBhHj fu_INIT_PRIORITY(1001) { "cleanID: ended up with an empty string"_fu };
                                #endif

#ifndef fu_NO_fdefs

bool hasIdentifierChars_V5Iu(fu::view<char> id)
{
    for (int i = 0; i < id.size(); i++)
    {
        const char c = id[i];
        if ((c == '_') || ((c >= 'a') && (c <= 'z')) || ((c >= 'A') && (c <= 'Z')) || ((c >= '0') && (c <= '9')))
            return true;

    };
    return false;
}

bool hasNonIdentifierChars_V5Iu(fu::view<char> id)
{
    for (int i = 0; i < id.size(); i++)
    {
        const char c = id[i];
        if (!((c == '_') || ((c >= 'a') && (c <= 'z')) || ((c >= 'A') && (c <= 'Z')) || ((c >= '0') && (c <= '9'))))
            return true;

    };
    return false;
}

unsigned parse10u32_V5Iu(int& offset, fu::view<char> str)
{
    unsigned result {};
    while (offset < str.size())
    {
        const char c = str[offset];
        if ((c < '0') || (c > '9'))
            break;
        else
        {
            offset++;
            result = ((result * 10u) + (unsigned(fu::u8(c)) - unsigned(fu::u8('0'))));
        };
    };
    return result;
}

int parse10s32_V5Iu(int& offset, fu::view<char> str)
{
    if ((offset >= str.size()))
        return 0;
    else
    {
        const int mul = ((str[offset] == '-') ? (offset++, -1) : +1);
        return int(parse10u32_V5Iu(offset, str)) * mul;
    };
}

unsigned parseVarint_V5Iu(int& offset, fu::view<char> str)
{
    unsigned shift {};
    unsigned result {};
    char c {};
    while ((offset < str.size()) && (unsigned(fu::u8((c = str[offset++]))) >= 128u))
    {
        result |= ((unsigned(fu::u8(c)) & 0x7fu) << shift);
        shift += 7u;
    };
    const unsigned sub = (((c >= '0') && (c <= '9')) ? unsigned(fu::u8('0')) : (((c >= 'A') && (c <= 'Z')) ? (unsigned(fu::u8('A')) - 10u) : (((c >= '_') && (c <= 'z')) ? (unsigned(fu::u8('_')) - 36u) : fu::fail(fu::str(str_9rQhCMeuBl1)))));
    return result | ((unsigned(fu::u8(c)) - sub) << shift);
}

void appendVarint_V5Iu(fu::vec_range_mut<char> str, unsigned v)
{
    while ((v >= 64u))
    {
        str += char((v | 0x80u));
        v >>= 7u;
    };
    const unsigned add = ((v < 10u) ? unsigned(fu::u8('0')) : ((v < 36u) ? (unsigned(fu::u8('A')) - 10u) : (unsigned(fu::u8('_')) - 36u)));
    str += char((v + add));
}

                                #ifndef DEF_join_yqDbqRmcQYi
                                #define DEF_join_yqDbqRmcQYi
inline fu::str join_yqDb(fu::view<fu::str> a, fu::view<char> sep)
{
    if (a.size() < 2)
    {
        if (a.size())
            return fu::str(a[0]);
        else
        {
            return fu::str{};
        };
    }
    else
    {
        const int N = sep.size();
        int size = a[0].size();
        for (int i = 1; i < a.size(); i++)
            size += (N + a[i].size());

        /*MOV*/ fu::str res {};
        res.grow<false>(size);
        fu::view<char> head = a[0];
        size = head.size();
        fu::view_assign(fu::get_view_start0_mut(res, head.size()), head);
        for (int i_1 = 1; i_1 < a.size(); i_1++)
        {
            fu::view<char> range = a[i_1];
            fu::view_assign(fu::get_view_mut(res, size, (size + N)), sep);
            size += N;
            fu::view_assign(fu::get_view_mut(res, size, (size + range.size())), range);
            size += range.size();
        };
        return /*NRVO*/ res;
    };
}
                                #endif

fu::str print_V5Iu(fu::view<fu::str> arr)
{
    if (arr)
        return ("[ \""_view + join_yqDb(arr, "\", \""_view)) + "\" ]"_view;
    else
        return fu::str("[]"_fu);

}

fu::vec_range<char> trim_V5Iu(fu::vec_range<char> str)
{
    for (int first = 0; first < str.size(); first++)
    {
        if (str[first] > ' ')
        {
            for (int last = str.size(); (last-- >= first); )
            {
                if (str[last] > ' ')
                    return fu::get_range(str, first, (last + 1));

            };
        };
    };
    return (*(fu::str*)fu::NIL);
}

                                #ifndef DEF_find_ZKsG2FXrtpg
                                #define DEF_find_ZKsG2FXrtpg
inline int find_ZKsG(fu::view<char> haystack, const char needle)
{
    for (int i = 0; i < haystack.size(); i++)
    {
        if (haystack[i] == needle)
            return i;

    };
    return -1;
}
                                #endif

                                #ifndef DEF_find_rkz0SQgq7mk
                                #define DEF_find_rkz0SQgq7mk
inline int find_rkz0(fu::view<char> haystack, const char needle, const int start)
{
    fu::view<char> slice = fu::get_view(haystack, start);
    const int res = find_ZKsG(slice, needle);
    return res + ((res < 0) ? 0 : start);
}
                                #endif

fu::vec_range<char> cleanID_V5Iu(fu::vec_range<char> id)
{
    const int start = (find_ZKsG(id, '!') + 1);
    const int end = find_rkz0(id, '.', start);
    if (start || ((end >= 0) && (end < id.size())))
    {
        fu::vec_range<char> _0 {};
        return (_0.ptr_reassign(fu::get_range(id, start, ((end >= 0) ? end : id.size())))) ? _0 : fu::fail(fu::str(str_JKVsI1EBhHj));
    }
    else
        return id;

}

#endif
