
                                #ifndef DEF_PROFILE
                                #define DEF_PROFILE
inline constexpr bool PROFILE = false;
                                #endif

                                #ifndef DEF_MEMORY
                                #define DEF_MEMORY
inline constexpr bool MEMORY = false;
                                #endif

#ifndef fu_NO_fdefs

void x2Bx3D_lO6Q()
{
}

void print_lO6Q()
{
}

#endif
