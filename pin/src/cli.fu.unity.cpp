#include "helpers.fu.cpp"
#include "flags.fu.cpp"
#include "../lib/now.fu.cpp"
#include "../lib/tea.fu.cpp"
#include "effects.fu.cpp"
#include "../lib/path.fu.cpp"
#include "ansi.fu.cpp"
#include "../lib/ascii.fu.cpp"
#include "../lib/unicode.fu.cpp"
#include "experiments.fu.cpp"
#include "levenshtein.fu.cpp"
#include "../lib/rand.fu.cpp"
#include "../lib/env.fu.cpp"
#include "../lib/ev/dbg.fu.cpp"
#include "testdiff.fu.cpp"
#include "../lib/file.fu.cpp"
#include "stat.fu.cpp"
#include "../lib/BitSet.fu.cpp"
#include "options.fu.cpp"
#include "intlit.fu.cpp"
#include "cpp.fu.cpp"
#include "../lib/fs.fu.cpp"
#include "../lib/FD.fu.cpp"
#include "../lib/signal.fu.cpp"
#include "fudir.fu.cpp"
#include "profiler.fu.cpp"
#include "../lib/spawn.fu.cpp"
#include "module.fu.cpp"
#include "../lib/exec.fu.cpp"
#include "test_output.fu.cpp"
#include "../lib/ev/Loop.fu.cpp"
#include "quals.fu.cpp"
#include "usage.fu.cpp"
#include "fail.fu.cpp"
#include "inspect.fu.cpp"
#include "build.fu.cpp"
#include "usertypes.fu.cpp"
#include "lexer.fu.cpp"
#include "parser.fu.cpp"
#include "canon.fu.cpp"
#include "lifetime.fu.cpp"
#include "hacks.fu.cpp"
#include "context.fu.cpp"
#include "types.fu.cpp"
#include "scope.fu.cpp"
#include "solver.fu.cpp"
#include "codegen.fu.cpp"
#include "prelude.fu.cpp"
#include "compiler.fu.cpp"
#include "test_utils.fu.cpp"
#include "tests.fu.cpp"
#include "cli.fu.cpp"

#ifdef fu_UNITY_FULIB
#include <fu/_fulib.cpp>
#endif
