#include "qlten/qlten.h"
