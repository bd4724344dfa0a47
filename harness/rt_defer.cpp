// deferred blocks as generated programs use them: every way out of a scope, with an exception possibly in flight
#include <fu/defer.h>

extern "C"
{
    void step(int);          // may throw
    void done(int);          // a deferred block
    bool flag();

    void always(int x)
    {
        step(0);
        fu_DEFER(done(1));
        step(1);
        if (flag())
            return;
        fu_DEFER(done(2));
        step(2);
    }

    void if_err(int x)
    {
        step(0);
        fu_DEFER_IF_ERR(done(1));
        step(1);
        if (flag())
            return;
        fu_DEFER_IF_ERR(done(2));
        step(2);
    }

    void if_ok(int x)
    {
        step(0);
        fu_DEFER_IF_OK(done(1));
        step(1);
        if (flag())
            return;
        fu_DEFER_IF_OK(done(2));
        step(2);
    }

    void mixed(int x)
    {
        fu_DEFER(done(1));
        step(1);
        fu_DEFER_IF_ERR(done(2));
        step(2);
        fu_DEFER_IF_OK(done(3));
        step(3);
        {
            fu_DEFER_IF_ERR(done(4));
            fu_DEFER_IF_OK(done(5));
            fu_DEFER(done(6));
            step(6);
        }
        step(7);
    }

    // blocks see the variables as they are when the scope ends, and may change them
    void late(int x)
    {
        int a = x;
        int b = x;
        int c = x;
        fu_DEFER(done(a));
        fu_DEFER_IF_ERR(done(b));
        fu_DEFER_IF_OK(done(c));
        a = 11;
        b = 12;
        c = 13;
        step(3);
    }

    void restore(int& place)
    {
        const int place0 = place;
        place = 5;
        fu_DEFER(place = place0);
        step(1);
    }

    // within a deferred block, and after an error was caught in a scope
    void recover(int x)
    {
        fu_DEFER_IF_ERR(done(1));
        fu_DEFER_IF_OK(done(2));
        try {
            fu_DEFER_IF_ERR(done(3));
            fu_DEFER_IF_OK(done(4));
            step(4);
        }
        catch (...) {
            fu_DEFER_IF_ERR(done(5));
            fu_DEFER_IF_OK(done(6));
            step(6);
        }
        step(7);
    }
}
