
#ifndef fu_NO_fdefs

void ln_qfb4()
{
}

#endif
