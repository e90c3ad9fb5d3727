// the repository header may come without an include guard
#pragma once
#include_next "Lepton.hh"
