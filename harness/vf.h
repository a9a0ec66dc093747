#pragma once
// opaque element types: every construction, copy, assignment and destruction is a call the analyser sees
#define VF_PRIVATE
struct E
{
    unsigned w[3];
    E();
    E(E const&);
    E& operator=(E const&);
    ~E();
    bool operator<(E const&) const;
};
