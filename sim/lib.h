// Library headers under test (taken from the working tree).
#pragma once
extern "C" {
#include "ctsa.h"
#include "autoutils.h"
#include "boxcox.h"
#include "boxjenkins.h"
#include "brent.h"
#include "conv.h"
#include "emle.h"
#include "errors.h"
#include "filter.h"
#include "hsfft.h"
#include "initest.h"
#include "lls.h"
#include "lnsrchmp.h"
#include "matrix.h"
#include "nls.h"
#include "optimc.h"
#include "pdist.h"
#include "dist.h"
#include "polyroot.h"
#include "pred.h"
#include "real.h"
#include "regression.h"
#include "seastest.h"
#include "spectrum.h"
#include "stats.h"
#include "talg.h"
#include "unitroot.h"
#include "wavelib.h"
#include "wavefilt.h"
}
#undef max
#undef min
