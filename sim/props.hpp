#pragma once
#include "gen.hpp"
struct Prop {
    const char* id;
    void (*gen)(Rng&, Plan*);
    void (*exec)(const Plan&, Ctx&);
    const char* rule;
};
const std::vector<Prop>& Props();
const Prop* FindProp(const std::string& id);
void StartCleanTemplate();                                // C05: before anything else
