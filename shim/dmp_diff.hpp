// Stands in for myers-diff, which the project fetches from the net: the plain
// interface, with a diff that drops all of the old text and puts in the new.
#ifndef SHIM_DMP_DIFF_HPP
#define SHIM_DMP_DIFF_HPP
#include <vector>
enum class Operation { EQUAL, INSERT, DELETE };
template <class Seq>
class MyersDiff {
   public:
    struct Range {
        typename Seq::const_iterator from, till;
        size_t size() const { return till - from; }
    };
    struct Diff {
        Operation operation;
        Range text;
    };
    using Diffs = std::vector<Diff>;
    MyersDiff(const Seq& a, const Seq& b) : a_{a}, b_{b} {}
    Diffs diffs() const {
        Diffs d;
        if (!a_.empty()) d.push_back({Operation::DELETE, {a_.begin(), a_.end()}});
        if (!b_.empty()) d.push_back({Operation::INSERT, {b_.begin(), b_.end()}});
        return d;
    }

   private:
    Seq a_, b_;
};
#endif
