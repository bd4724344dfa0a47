                                #ifdef fu_TESTSUITE
#undef NDEBUG
                                #endif
#include <stdio.h>
#include <fu/int.h>
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/view.h>
#include <fu/assert.h>
#include <fu/vec/concat.h>

                                #ifdef fu_TESTSUITE
                                #endif
                                #ifdef fu_TESTSUITE
                                #endif
                                #ifdef fu_TESTSUITE
                                #endif

#ifndef fu_NO_fdefs

fu::str utf8_9YhF(const unsigned codepoint)
{
    if ((codepoint <= 0x7fu))
    {
        return fu::vec<char> {{ char(codepoint) }};
    }
    else if ((codepoint <= 0x07ffu))
    {
        return fu::vec<char> {{ char((((codepoint >> 6u) & 0x1fu) | 0xc0u)), char((((codepoint >> 0u) & 0x3fu) | 0x80u)) }};
    }
    else if ((codepoint <= 0xffffu))
    {
        return fu::vec<char> {{ char((((codepoint >> 12u) & 0x0fu) | 0xe0u)), char((((codepoint >> 6u) & 0x3fu) | 0x80u)), char((((codepoint >> 0u) & 0x3fu) | 0x80u)) }};
    }
    else if ((codepoint <= 0x10ffffu))
    {
        return fu::vec<char> {{ char((((codepoint >> 18u) & 0x07u) | 0xf0u)), char((((codepoint >> 12u) & 0x3fu) | 0x80u)), char((((codepoint >> 6u) & 0x3fu) | 0x80u)), char((((codepoint >> 0u) & 0x3fu) | 0x80u)) }};
    }
    else
    {
        return fu::str{};
    };
}
                                #ifdef fu_TESTSUITE

                                #ifndef DEF_each_7XXvMUybnJ9
                                #define DEF_each_7XXvMUybnJ9
inline static fu::view<char> each_7XXv(const unsigned codepoint, fu::str& roundtrip)
{
    return (roundtrip += utf8_9YhF(codepoint));
}
                                #endif

                                #ifndef DEF_error_1YcoIxeCgXa
                                #define DEF_error_1YcoIxeCgXa
inline static void error_1Yco()
{
    fu_ASSERT(false);
}
                                #endif

                                #ifndef DEF_codepoints_elysdyY4sga
                                #define DEF_codepoints_elysdyY4sga
inline void codepoints_elys(fu::view<char> utf8, fu::str& roundtrip)
{
    for (int i = 0; i < utf8.size(); i++)
    {

        { {
            unsigned c = unsigned(fu::u8(utf8[i]));
            if ((c >= 0x80u))
            {
                int extra = 0;
                if ((c & 0xe0u) == 0xc0u)
                    extra = 1;
                else if ((c & 0xf0u) == 0xe0u)
                    extra = 2;
                else if ((c & 0xf8u) == 0xf0u)
                    extra = 3;
                else
                    goto BL_3;

                c &= (0x3fu >> unsigned(extra));
                const int i1 = (i + extra);
                if (utf8.size() < i1)
                    goto BL_3;
                else
                {
                    do
                    {
                        i++;
                        unsigned b = unsigned(fu::u8(utf8[i]));
                        if ((b & 0xc0u) != 0x80u)
                            goto BL_3;
                        else
                        {
                            b &= ~0xc0u;
                            c <<= 6u;
                            c |= b;
                        };
                    }
                    while ((i < i1));
                };
            };
            each_7XXv(unsigned(c), roundtrip);
            continue;
          } BL_3:;
        };
        error_1Yco();
    };
}
                                #endif

                                #ifndef DEF_x3Cx3E_odNTdyipeEj
                                #define DEF_x3Cx3E_odNTdyipeEj
inline int x3Cx3E_odNT(const int a, const int b)
{
    if (a < b)
        return -1;
    else if (a > b)
        return +1;
    else
        return 0;

}
                                #endif

                                #ifndef DEF_x3Cx3E_YuqOPxIKAE3
                                #define DEF_x3Cx3E_YuqOPxIKAE3
inline int x3Cx3E_YuqO(const char a, const char b)
{
    if (a < b)
        return -1;
    else if (a > b)
        return +1;
    else
        return 0;

}
                                #endif

                                #ifndef DEF_x3Cx3E_sHkyfbB9LP5
                                #define DEF_x3Cx3E_sHkyfbB9LP5
inline int x3Cx3E_sHky(fu::view<char> a, fu::view<char> b)
{
    int cmp = x3Cx3E_odNT(a.size(), b.size());
    bool quick {};
    quick = a.m_data == b.m_data;
    if (!quick)
        for (int i = 0; (i < a.size()) && !cmp; i++)
            cmp = x3Cx3E_YuqO(a[i], b[i]);
;
    return cmp;
}
                                #endif

                                #ifndef DEF_x3Dx3D_5LzKaBrBRw9
                                #define DEF_x3Dx3D_5LzKaBrBRw9
inline bool operator==(fu::view<char> a, fu::view<char> b)
{
    return !x3Cx3E_sHky(a, b);
}
                                #endif

static bool ok_9YhF(fu::view<char> TEST)
{
    fu::str roundtrip {};
    codepoints_elys(TEST, roundtrip);
    return TEST == roundtrip;
}

                                #ifndef DEF___7XXvMUybnJ9
                                #define DEF___7XXvMUybnJ9
inline static fu::view<char> _7XXv(const unsigned codepoint, fu::str& roundtrip)
{
    return (roundtrip += utf8_9YhF(codepoint));
}
                                #endif

                                #ifndef DEF_codepoints_ZPtgMF2R1re
                                #define DEF_codepoints_ZPtgMF2R1re
inline void codepoints_ZPtg(fu::view<char> utf8, fu::str& roundtrip)
{
    for (int i = 0; i < utf8.size(); i++)
    { {
        unsigned c = unsigned(fu::u8(utf8[i]));
        if ((c >= 0x80u))
        {
            int extra = 0;
            if ((c & 0xe0u) == 0xc0u)
                extra = 1;
            else if ((c & 0xf0u) == 0xe0u)
                extra = 2;
            else if ((c & 0xf8u) == 0xf0u)
                extra = 3;
            else
                continue;

            c &= (0x3fu >> unsigned(extra));
            const int i1 = (i + extra);
            if (utf8.size() < i1)
                continue;
            else
            {
                do
                {
                    i++;
                    unsigned b = unsigned(fu::u8(utf8[i]));
                    if ((b & 0xc0u) != 0x80u)
                        goto BL_2;
                    else
                    {
                        b &= ~0xc0u;
                        c <<= 6u;
                        c |= b;
                    };
                }
                while ((i < i1));
            };
        };
        _7XXv(unsigned(c), roundtrip);
      } BL_2:;
    };
}
                                #endif

void TEST_utf8_roundtrip_9YhF()
{
    fu_ASSERT(ok_9YhF("H"_view));
    fu_ASSERT(ok_9YhF("\xC3\x82"_view));
    fu_ASSERT(ok_9YhF("\xE4\xB8\xAD"_view));
    fu_ASSERT(ok_9YhF("\xF0\x9F\x8F\x80"_view));
    fu::view<char> TEST = "\n        https://www.w3.org/2001/06/utf-8-test/UTF-8-demo.html\n        \xE2\x88\xAE E\xE2\x8B\x85""da = Q,  n \xE2\x86\x92 \xE2\x88\x9E, \xE2\x88\x91 f(i) = \xE2\x88\x8F g(i), \xE2\x88\x80x\xE2\x88\x88\xE2\x84\x9D"": \xE2\x8C\x88x\xE2\x8C\x89 = \xE2\x88\x92\xE2\x8C\x8A\xE2\x88\x92x\xE2\x8C\x8B, \xCE\xB1 \xE2\x88\xA7 \xC2\xAC\xCE\xB2 = \xC2\xAC(\xC2\xAC\xCE\xB1 \xE2\x88\xA8 \xCE\xB2),\n        \xE2\x84\x95 \xE2\x8A\x86 \xE2\x84\x95\xE2\x82\x80 \xE2\x8A\x82 \xE2\x84\xA4 \xE2\x8A\x82 \xE2\x84\x9A \xE2\x8A\x82 \xE2\x84\x9D \xE2\x8A\x82 \xE2\x84\x82, \xE2\x8A\xA5 < a \xE2\x89\xA0 b \xE2\x89\xA1 c \xE2\x89\xA4 d \xE2\x89\xAA \xE2\x8A\xA4 \xE2\x87\x92 (A \xE2\x87\x94 B),\n        2H\xE2\x82\x82 + O\xE2\x82\x82 \xE2\x87\x8C 2H\xE2\x82\x82O, R = 4.7 k\xCE\xA9, \xE2\x8C\x80 200 mm\n        \xC3\xB0i \xC4\xB1nt\xC9\x99\xCB\x88n\xC3\xA6\xCA\x83\xC9\x99n\xC9\x99l f\xC9\x99\xCB\x88n\xC9\x9Bt\xC4\xB1k \xC9\x99so\xCA\x8Asi\xCB\x88""e\xC4\xB1\xCA\x83n\n        Y [\xCB\x88\xCA\x8Fpsil\xC9\x94n], Yen [j\xC9\x9Bn], Yoga [\xCB\x88jo\xCB\x90g\xC9\x91]\n        ((V\xE2\x8D\xB3V)=\xE2\x8D\xB3\xE2\x8D\xB4V)/V\xE2\x86\x90,V    \xE2\x8C\xB7\xE2\x86\x90\xE2\x8D\xB3\xE2\x86\x92\xE2\x8D\xB4\xE2\x88\x86\xE2\x88\x87\xE2\x8A\x83\xE2\x80\xBE\xE2\x8D\x8E\xE2\x8D\x95\xE2\x8C\x88\n        \xCE\xB5\xE1\xBC\xB0\xCF\x82 \xCF\x84\xCE\xBF\xE1\xBF\xA6\xCF\x84\xCE\xBF \xCF\x80\xCF\x81\xCE\xBF\xCE\xAE\xCE\xBA\xCE\xBF\xCE\xBD\xCF\x84\xCE\xB1,  \xE1\xBD\xA5\xCF\x83\xCE\xB8\xE1\xBE\xBF \xE1\xBD\x85\xCF\x80\xCF\x89\xCF\x82 \xCE\xBC\xE1\xBD\xB4 \xCF\x80\xCE\xB5\xCE\xB9\xCF\x83\xCF\x8C\xCE\xBC\xCE\xB5\xCE\xB8\xE1\xBE\xBF \xCE\xB1\xE1\xBD\x90\xCF\x84\xCE\xBF\xE1\xBD\xB6\n        \xCF\x83\xCF\x8E\xCF\x83\xCE\xBF\xCE\xBC\xCE\xB5\xCE\xBD. \xE1\xBC\x90\xE1\xBD\xB0\xCE\xBD \xCE\xB3\xE1\xBD\xB0\xCF\x81 \xCF\x84\xCE\xBF\xE1\xBF\xA6\xCF\x84\xCE\xBF \xCE\xB2\xCE\xB5\xCE\xB2\xCE\xB1\xCE\xAF\xCF\x89\xCF\x82 \xE1\xBD\x91\xCF\x80\xCE\xAC\xCF\x81\xCE\xBE\xE1\xBF\x83, \xCF\x84\xCF\x8C\xCF\x84\xCE\xB5 \xCE\xBA\xCE\xB1\xE1\xBD\xB6 \xCF\x80\xCE\xB5\xCF\x81\xE1\xBD\xB6 \xCF\x84\xCE\xBF\xE1\xBF\xA6\n        \xE0\xB9\x8F \xE0\xB9\x81\xE0\xB8\x9C\xE0\xB9\x88\xE0\xB8\x99\xE0\xB8\x94\xE0\xB8\xB4\xE0\xB8\x99\xE0\xB8\xAE\xE0\xB8\xB1\xE0\xB9\x88\xE0\xB8\x99\xE0\xB9\x80\xE0\xB8\xAA\xE0\xB8\xB7\xE0\xB9\x88\xE0\xB8\xAD\xE0\xB8\xA1\xE0\xB9\x82\xE0\xB8\x97\xE0\xB8\xA3\xE0\xB8\xA1\xE0\xB9\x81\xE0\xB8\xAA\xE0\xB8\x99\xE0\xB8\xAA\xE0\xB8\xB1\xE0\xB8\x87\xE0\xB9\x80\xE0\xB8\xA7\xE0\xB8\x8A  \xE0\xB8\x9E\xE0\xB8\xA3\xE0\xB8\xB0\xE0\xB8\x9B\xE0\xB8\x81\xE0\xB9\x80\xE0\xB8\x81\xE0\xB8\xA8\xE0\xB8\x81\xE0\xB8\xAD\xE0\xB8\x87\xE0\xB8\x9A\xE0\xB8\xB9\xE0\xB9\x8A\xE0\xB8\x81\xE0\xB8\xB9\xE0\xB9\x89\xE0\xB8\x82\xE0\xB8\xB6\xE0\xB9\x89\xE0\xB8\x99\xE0\xB9\x83\xE0\xB8\xAB\xE0\xB8\xA1\xE0\xB9\x88\n        \xE1\x8B\x88\xE1\x8B\xB3\xE1\x8C\x85\xE1\x88\x85 \xE1\x88\x9B\xE1\x88\xAD \xE1\x89\xA2\xE1\x88\x86\xE1\x8A\x95 \xE1\x8C\xA8\xE1\x88\xAD\xE1\x88\xB5\xE1\x88\x85 \xE1\x8A\xA0\xE1\x89\xB5\xE1\x88\x8B\xE1\x88\xB0\xE1\x8B\x8D\xE1\x8D\xA2\n        \xE1\x9A\xBB\xE1\x9B\x96 \xE1\x9A\xB3\xE1\x9A\xB9\xE1\x9A\xAB\xE1\x9A\xA6 \xE1\x9A\xA6\xE1\x9A\xAB\xE1\x9B\x8F \xE1\x9A\xBB\xE1\x9B\x96 \xE1\x9B\x92\xE1\x9A\xA2\xE1\x9B\x9E\xE1\x9B\x96 \xE1\x9A\xA9\xE1\x9A\xBE \xE1\x9A\xA6\xE1\x9A\xAB\xE1\x9B\x97 \xE1\x9B\x9A\xE1\x9A\xAA\xE1\x9A\xBE\xE1\x9B\x9E\xE1\x9B\x96 \xE1\x9A\xBE\xE1\x9A\xA9\xE1\x9A\xB1\xE1\x9A\xA6\xE1\x9A\xB9\xE1\x9B\x96\xE1\x9A\xAA\xE1\x9A\xB1\xE1\x9B\x9E\xE1\x9A\xA2\xE1\x9B\x97 \xE1\x9A\xB9\xE1\x9B\x81\xE1\x9A\xA6 \xE1\x9A\xA6\xE1\x9A\xAA \xE1\x9A\xB9\xE1\x9B\x96\xE1\x9B\xA5\xE1\x9A\xAB\n        \xE2\xA0\x97\xE2\xA0\x91\xE2\xA0\x9B\xE2\xA0\x9C\xE2\xA0\x99 \xE2\xA0\x81 \xE2\xA0\x8A\xE2\xA0\x95\xE2\xA0\x8B\xE2\xA0\x8B\xE2\xA0\x94\xE2\xA0\xA4\xE2\xA0\x9D\xE2\xA0\x81\xE2\xA0\x8A\xE2\xA0\x87 \xE2\xA0\x81\xE2\xA0\x8E \xE2\xA0\xB9\xE2\xA0\x91 \xE2\xA0\x99\xE2\xA0\x91\xE2\xA0\x81\xE2\xA0\x99\xE2\xA0\x91\xE2\xA0\x8C \xE2\xA0\x8F\xE2\xA0\x8A\xE2\xA0\x91\xE2\xA0\x8A\xE2\xA0\x91 \xE2\xA0\x95\xE2\xA0\x8B \xE2\xA0\x8A\xE2\xA0\x97\xE2\xA0\x95\xE2\xA0\x9D\xE2\xA0\x8D\xE2\xA0\x95\xE2\xA0\x9D\xE2\xA0\x9B\xE2\xA0\xBB\xE2\xA0\xB9\n        ABCDEFGHIJKLMNOPQRSTUVWXYZ /0123456789\n        abcdefghijklmnopqrstuvwxyz \xC2\xA3\xC2\xA9\xC2\xB5\xC3\x80\xC3\x86\xC3\x96\xC3\x9E\xC3\x9F\xC3\xA9\xC3\xB6\xC3\xBF\n        \xE2\x80\x93\xE2\x80\x94\xE2\x80\x98\xE2\x80\x9C\xE2\x80\x9D\xE2\x80\x9E\xE2\x80\xA0\xE2\x80\xA2\xE2\x80\xA6\xE2\x80\xB0\xE2\x84\xA2\xC5\x93\xC5\xA0\xC5\xB8\xC5\xBE\xE2\x82\xAC \xCE\x91\xCE\x92\xCE\x93\xCE\x94\xCE\xA9\xCE\xB1\xCE\xB2\xCE\xB3\xCE\xB4\xCF\x89 \xD0\x90\xD0\x91\xD0\x92\xD0\x93\xD0\x94\xD0\xB0\xD0\xB1\xD0\xB2\xD0\xB3\xD0\xB4\n        \xE2\x88\x80\xE2\x88\x82\xE2\x88\x88\xE2\x84\x9D\xE2\x88\xA7\xE2\x88\xAA\xE2\x89\xA1\xE2\x88\x9E \xE2\x86\x91\xE2\x86\x97\xE2\x86\xA8\xE2\x86\xBB\xE2\x87\xA3 \xE2\x94\x90\xE2\x94\xBC\xE2\x95\x94\xE2\x95\x98\xE2\x96\x91\xE2\x96\xBA\xE2\x98\xBA\xE2\x99\x80 \xEF\xAC\x81\xEF\xBF\xBD\xE2\x91\x80\xE2\x82\x82\xE1\xBC\xA0\xE1\xB8\x82\xD3\xA5\xE1\xBA\x84\xC9\x90\xCB\x90\xE2\x8D\x8E\xD7\x90\xD4\xB1\xE1\x83\x90\n        Hello world, \xCE\x9A\xCE\xB1\xCE\xBB\xCE\xB7\xCE\xBC\xCE\xAD\xCF\x81\xCE\xB1 \xCE\xBA\xCF\x8C\xCF\x83\xCE\xBC\xCE\xB5, \xE3\x82\xB3\xE3\x83\xB3\xE3\x83\x8B\xE3\x83\x81\xE3\x83\x8F\n        \xE7\xBA\xA6\xE7\xBF\xB0\xC2\xB7W\xC2\xB7\xE7\xBA\xA6\xE7\xBF\xB0\xE6\x96\xAF\xE9\xA1\xBF\xE6\x98\xAF\xE6\x9D\xA5\xE8\x87\xAA\xE7\xBE\x8E\xE5\x9B\xBD\xE5\xBC\x97\xE5\x90\x89\xE5\xB0\xBC\xE4\xBA\x9A\xE5\xB7\x9E\xE9\x98\xBF\xE5\xAE\xBE\xE7\x99\xBB\xE7\x9A\x84\xE5\xBE\x8B\xE5\xB8\x88\xE5\x85\xBC\xE6\x94\xBF\xE6\xB2\xBB\xE5\xAE\xB6\xEF\xBC\x8C\xE6\x9B\xBE\xE6\x8B\x85\xE4\xBB\xBB\xE5\xBC\x97\xE5\x90\x89\xE5\xB0\xBC\xE4\xBA\x9A\xE5\xB7\x9E\xE5\x8F\x82\xE8\xAE\xAE\xE5\x91\x98\xEF\xBC\x8C\xE5\xBC\x97\xE5\x90\x89\xE5\xB0\xBC\xE4\xBA\x9A\xE5\xB7\x9E\xE5\x9C\xA8\xE5\x8D\x97\xE5\x8C\x97\xE6\x88\x98\xE4\xBA\x89\xE7\xBB\x93\xE6\x9D\x9F\xE5\x90\x8E\xE9\x87\x8D\xE6\x96\xB0\xE5\x8A\xA0\xE5\x85\xA5\xE8\x81\x94\xE9\x82\xA6\xEF\xBC\x8C\xE7\xBA\xA6\xE7\xBF\xB0\xE6\x96\xAF\xE9\xA1\xBF\xE4\xBB\xA5\xE6\xB0\x91\xE4\xB8\xBB\xE5\x85\x9A\xE4\xBA\xBA\xE8\xBA\xAB\xE4\xBB\xBD\xE5\xBD\x93\xE9\x80\x89\xE8\xAF\xA5\xE5\xB7\x9E\xE8\x81\x94\xE9\x82\xA6\xE5\x8F\x82\xE8\xAE\xAE\xE5\x91\x98\xE5\xB9\xB6\xE4\xBB\xBB\xE8\x81\x8C""13\xE5\xB9\xB4\xE3\x80\x82\xE7\xBA\xA6\xE7\xBF\xB0\xE6\x96\xAF\xE9\xA1\xBF\xE7\x9A\x84\xE5\x8F\x82\xE8\xAE\xAE\xE5\x91\x98\xE7\x94\x9F\xE6\xB6\xAF\xE7\xBB\x8F\xE5\x8E\x86\xE8\xBF\x87\xE5\xA4\x9A\xE4\xB8\xAA\xE8\xAE\xAE\xE9\xA2\x98\xE7\x9A\x84\xE6\xB4\x97\xE7\xA4\xBC\xE3\x80\x82\xE9\xA6\x96\xE5\x85\x88\xE6\x98\xAF\xE6\x9C\x89\xE5\x85\xB3\xE9\x98\xBF\xE7\x81\xB5\xE9\xA1\xBF\xE5\xAE\xAB\xE7\x9A\x84\xE8\xBE\xA9\xE8\xAE\xBA\xE3\x80\x82\xE7\xBA\xA6\xE7\xBF\xB0\xE6\x96\xAF\xE9\xA1\xBF\xE8\xBF\x98\xE5\x85\xAC\xE5\xBC\x80\xE5\x8F\x8D\xE5\xAF\xB9\xE5\xBE\xB7\xE5\x85\x8B\xE8\x90\xA8\xE6\x96\xAF\xEF\xBC\x8D\xE5\xA4\xAA\xE5\xB9\xB3\xE6\xB4\x8B\xE6\xB3\x95\xE6\xA1\x88\xE3\x80\x82\xE4\xBB\x96\xE7\xBD\xAE\xE8\xBA\xAB\xE4\xBE\x9B\xE8\xB5\x84\xE8\x80\x85\xE5\x92\x8C\xE9\x87\x8D\xE6\x96\xB0\xE8\xB0\x83\xE6\x95\xB4\xE8\x80\x85\xE7\x9A\x84\xE4\xBA\x89\xE6\x96\x97\xEF\xBC\x8C\xE4\xB8\xBB\xE5\xBC\xA0\xE5\x90\x84\xE5\xB7\x9E\xE5\xBA\x94\xE5\x85\xA8\xE9\xA2\x9D\xE5\x81\xBF\xE8\xBF\x98\xE5\x86\x85\xE6\x88\x98\xE5\x89\x8D\xE6\xAC\xA0\xE4\xB8\x8B\xE7\x9A\x84\xE5\x80\xBA\xE5\x8A\xA1\xE3\x80\x82\n        \xE6\x98\x8E\xE6\xB2\xBB\xE3\x81\x8B\xE3\x82\x89\xE5\xA4\xA7\xE6\xAD\xA3\xE5\x88\x9D\xE6\x9C\x9F\xE3\x81\xAB\xE3\x81\x8B\xE3\x81\x91\xE3\x81\xA6\xE5\x85\xAB\xE4\xB8\x88\xE5\xB0\x8F\xE5\xB3\xB6\xE3\x81\xA7\xE8\xA1\x8C\xE3\x82\x8F\xE3\x82\x8C\xE3\x81\x9F\xE3\x83\x90\xE3\x82\xAF\xE7\x97\x85\xE3\x81\xAE\xE8\xAA\xBF\xE6\x9F\xBB\xE7\xA0\x94\xE7\xA9\xB6\xE3\x81\xAF\xE3\x80\x81\xE8\xB1\xA1\xE7\x9A\xAE\xE7\x97\x85\xE3\x81\xAE\xE8\x87\xA8\xE5\xBA\x8A\xE8\xA8\xBA\xE6\x96\xAD\xE3\x82\x84\xE5\x8E\x9F\xE5\x9B\xA0\xE8\xAA\xBF\xE6\x9F\xBB\xE3\x81\xAB\xE4\xB8\xBB\xE7\x9C\xBC\xE7\x82\xB9\xE3\x82\x92\xE7\xBD\xAE\xE3\x81\x84\xE3\x81\xA6\xE3\x81\x8A\xE3\x82\x8A\xE3\x80\x81\xE6\xB2\xBB\xE7\x99\x82\xE3\x81\xAB\xE7\x9B\xB4\xE7\xB5\x90\xE3\x81\x97\xE3\x81\xA6\xE3\x81\x84\xE3\x81\xAA\xE3\x81\x8B\xE3\x81\xA3\xE3\x81\x9F\xE3\x80\x82\xE3\x83\xAA\xE3\x83\xB3\xE3\x83\x91\xE7\xB3\xBB\xE3\x83\x95\xE3\x82\xA3\xE3\x83\xA9\xE3\x83\xAA\xE3\x82\xA2\xE7\x97\x87\xE3\x81\xAF\xE5\x91\xBD\xE3\x81\xAE\xE5\x8D\xB1\xE9\x99\xBA\xE3\x81\xAB\xE7\x9B\xB4\xE6\x8E\xA5\xE6\x99\x92\xE3\x81\x95\xE3\x82\x8C\xE3\x82\x8B\xE3\x82\x88\xE3\x81\x86\xE3\x81\xAA\xE7\x97\x85\xE6\xB0\x97\xE3\x81\xA7\xE3\x81\xAA\xE3\x81\x8B\xE3\x81\xA3\xE3\x81\x9F\xE3\x81\x93\xE3\x81\xA8\xE3\x81\xAB\xE5\x8A\xA0\xE3\x81\x88\xE3\x80\x81\xE3\x81\x9D\xE3\x82\x82\xE3\x81\x9D\xE3\x82\x82\xE3\x83\x95\xE3\x82\xA3\xE3\x83\xA9\xE3\x83\xAA\xE3\x82\xA2\xE7\x97\x87\xE3\x81\xAB\xE5\xAF\xBE\xE3\x81\x99\xE3\x82\x8B\xE6\x9C\x89\xE5\x8A\xB9\xE3\x81\xAA\xE4\xBA\x88\xE9\x98\xB2\xE6\xB3\x95\xE3\x82\x84\xE6\xB2\xBB\xE7\x99\x82\xE6\xB3\x95\xE3\x81\xAF""1950\xE5\xB9\xB4\xEF\xBC\x88\xE6\x98\xAD\xE5\x92\x8C""25\xE5\xB9\xB4\xEF\xBC\x89\xE3\x81\x94\xE3\x82\x8D\xE3\x81\xBE\xE3\x81\xA7\xE5\xAD\x98\xE5\x9C\xA8\xE3\x81\x97\xE3\x81\xAA\xE3\x81\x8B\xE3\x81\xA3\xE3\x81\x9F\xE3\x81\xAE\xE3\x81\xA7\xE3\x81\x82\xE3\x82\x8B[85]\xE3\x80\x82\n        \xE2\x95\x94\xE2\x95\x90\xE2\x95\x90\xE2\x95\xA6\xE2\x95\x90\xE2\x95\x90\xE2\x95\x97  \xE2\x94\x8C\xE2\x94\x80\xE2\x94\x80\xE2\x94\xAC\xE2\x94\x80\xE2\x94\x80\xE2\x94\x90  \xE2\x95\xAD\xE2\x94\x80\xE2\x94\x80\xE2\x94\xAC\xE2\x94\x80\xE2\x94\x80\xE2\x95\xAE  \xE2\x95\xAD\xE2\x94\x80\xE2\x94\x80\xE2\x94\xAC\xE2\x94\x80\xE2\x94\x80\xE2\x95\xAE  \xE2\x94\x8F\xE2\x94\x81\xE2\x94\x81\xE2\x94\xB3\xE2\x94\x81\xE2\x94\x81\xE2\x94\x93  \xE2\x94\x8E\xE2\x94\x92\xE2\x94\x8F\xE2\x94\x91   \xE2\x95\xB7  \xE2\x95\xBB \xE2\x94\x8F\xE2\x94\xAF\xE2\x94\x93 \xE2\x94\x8C\xE2\x94\xB0\xE2\x94\x90    \xE2\x96\x8A \xE2\x95\xB1\xE2\x95\xB2\xE2\x95\xB1\xE2\x95\xB2\xE2\x95\xB3\xE2\x95\xB3\xE2\x95\xB3\n        \xE2\x95\x91\xE2\x94\x8C\xE2\x94\x80\xE2\x95\xA8\xE2\x94\x80\xE2\x94\x90\xE2\x95\x91  \xE2\x94\x82\xE2\x95\x94\xE2\x95\x90\xE2\x95\xA7\xE2\x95\x90\xE2\x95\x97\xE2\x94\x82  \xE2\x94\x82\xE2\x95\x92\xE2\x95\x90\xE2\x95\xAA\xE2\x95\x90\xE2\x95\x95\xE2\x94\x82  \xE2\x94\x82\xE2\x95\x93\xE2\x94\x80\xE2\x95\x81\xE2\x94\x80\xE2\x95\x96\xE2\x94\x82  \xE2\x94\x83\xE2\x94\x8C\xE2\x94\x80\xE2\x95\x82\xE2\x94\x80\xE2\x94\x90\xE2\x94\x83  \xE2\x94\x97\xE2\x95\x83\xE2\x95\x84\xE2\x94\x99  \xE2\x95\xB6\xE2\x94\xBC\xE2\x95\xB4\xE2\x95\xBA\xE2\x95\x8B\xE2\x95\xB8\xE2\x94\xA0\xE2\x94\xBC\xE2\x94\xA8 \xE2\x94\x9D\xE2\x95\x8B\xE2\x94\xA5    \xE2\x96\x8B \xE2\x95\xB2\xE2\x95\xB1\xE2\x95\xB2\xE2\x95\xB1\xE2\x95\xB3\xE2\x95\xB3\xE2\x95\xB3\n        \xF0\x9F\x91\xA9\xF0\x9F\x8F\xBF\xE2\x80\x8D\xF0\x9F\x9A\x80 is encoded as \xF0\x9F\x91\xA9, \xF0\x9F\x8F\xBF, and \xF0\x9F\x9A\x80 with a zero width joiner character\n    "_view;
    fu::str roundtrip {};
    codepoints_ZPtg(TEST, roundtrip);
    fu_ASSERT((TEST == roundtrip));
}
                                #endif

#endif

                                #ifdef fu_TESTSUITE
int main()
{
    puts("   TEST TEST_utf8_roundtrip ...");
    TEST_utf8_roundtrip_9YhF();
    puts("    ... TEST_utf8_roundtrip OK\n");

    return 0;
}
                                #endif
