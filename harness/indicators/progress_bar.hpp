// Stand-in for the indicators library (not installed): a progress bar that shows nothing.
#pragma once
#include <memory>
#include <string>
namespace indicators {
namespace option {
struct BarWidth { int v; }; struct Start { std::string v; }; struct Fill { std::string v; }; struct Lead { std::string v; };
struct Remainder { std::string v; }; struct End { std::string v; }; struct PrefixText { std::string v; }; struct PostfixText { std::string v; };
struct ShowPercentage { bool v; }; struct ShowElapsedTime { bool v; }; struct MaxProgress { int v; };
} // namespace option
class ProgressBar {
  public:
    template <class... A> explicit ProgressBar(A&&...) {}
    template <class O> void set_option(O&&) {}
    void tick() {}
    bool is_completed() const { return true; }
};
} // namespace indicators
