// Stand-in for the dilithium submodule's header (absent here): the library's own SHAKE has the same prototypes.
#include "xmss-alt/fips202.h"
