/* Calls the library's C entry point with the program's own arguments, in an
   array of its own that goes on after the last argument. */
#include <stdlib.h>
#include "waterbear.h"

int main(int argc, const char **argv) {
    const char **v = malloc((argc + 1) * sizeof *v);
    for (int i = 0; i < argc; i++)
        v[i] = argv[i];
    v[argc] = "--not-an-argument";
    waterbear_invoke_command_line((size_t)argc, v);
    return 0;
}
