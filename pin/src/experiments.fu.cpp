
                                #ifndef DEF_ALLOW_retying_truthy_string_literals_to_falsy_enum_values
                                #define DEF_ALLOW_retying_truthy_string_literals_to_falsy_enum_values
inline constexpr bool ALLOW_retying_truthy_string_literals_to_falsy_enum_values = true;
                                #endif

                                #ifndef DEF_IDEA_void_empty_struct
                                #define DEF_IDEA_void_empty_struct
inline constexpr bool IDEA_void_empty_struct = true;
                                #endif

                                #ifndef DEF_TODO_FIX_static_ZSTs
                                #define DEF_TODO_FIX_static_ZSTs
inline constexpr bool TODO_FIX_static_ZSTs = true;
                                #endif

                                #ifndef DEF_ALLOW_conv_loops
                                #define DEF_ALLOW_conv_loops
inline constexpr bool ALLOW_conv_loops = true;
                                #endif

                                #ifndef DEF_DONT_match_zeroes
                                #define DEF_DONT_match_zeroes
inline constexpr bool DONT_match_zeroes = true;
                                #endif
