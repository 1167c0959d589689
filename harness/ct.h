// Cantera headers and set-up common to the harnesses.
#pragma once
#include "vh.h"
#include "cantera/core.h"
#include "cantera/base/Solution.h"
#include "cantera/base/Interface.h"
#include "cantera/base/AnyMap.h"
#include "cantera/base/Units.h"
#include "cantera/base/YamlWriter.h"
#include "cantera/base/global.h"
#include "cantera/base/utilities.h"
#include "cantera/base/stringUtils.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/transport/Transport.h"

namespace vh {
using namespace Cantera;

inline string repoDir() {
    const char* e = getenv("VERIF_REPO");
    return e ? e : "/repo";
}

inline void ctInit() {
    addDirectory(repoDir() + "/data");
    addDirectory(repoDir() + "/test/data");
    addDirectory(string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/data");
    suppress_deprecation_warnings();
    suppress_warnings();
    suppress_thermo_warnings(true);
    CanteraError::setStackTraceDepth(0);
}
} // namespace vh
