#pragma once
#ifndef EVMC_EXPORT
#define EVMC_EXPORT __attribute__((visibility("default")))
#endif
