/* configuration used for the instrumented build (not the repository's own) */
#define HAVE_GETTID 1
#define VERSION "mc"
#define PACKAGE "fullock"
