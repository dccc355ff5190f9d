#pragma once
namespace tosca::evmzero::internal {
constexpr auto kCompilerId = "verif";
constexpr auto kCompilerVersion = "0";
constexpr auto kBuildType = "verif";
constexpr auto kCompileDefinitions = "";
constexpr auto kCompileOptions = "";
constexpr auto kAssertions = "";
constexpr auto kAsan = "";
constexpr auto kMimalloc = "";
constexpr auto kTracy = "";
}
