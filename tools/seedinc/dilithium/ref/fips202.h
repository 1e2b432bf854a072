#pragma once
#include <xmss-alt/fips202.h>
