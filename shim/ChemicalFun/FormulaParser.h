#pragma once
#include "ChemicalFun/FormulaParser/ChemicalData.h"
