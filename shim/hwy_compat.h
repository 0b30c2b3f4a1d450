#pragma once
#define HWY_LANES_CONSTEXPR
