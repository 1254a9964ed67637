#include "props.hpp"
const std::vector<Prop>& SoilProps();
const std::vector<Prop>& EnvProps();
const std::vector<Prop>& IoProps();
const std::vector<Prop>& SymProps();
const std::vector<Prop>& PushProps();
const std::vector<Prop>& SlideProps();
const std::vector<Prop>& TurnProps();
const std::vector<Prop>& Props() {
    static std::vector<Prop> v = [] {
        std::vector<Prop> r;
        for (auto& p : SoilProps()) r.push_back(p);
        for (auto& p : EnvProps()) r.push_back(p);
        for (auto& p : IoProps()) r.push_back(p);
        for (auto& p : SymProps()) r.push_back(p);
        for (auto& p : PushProps()) r.push_back(p);
        for (auto& p : SlideProps()) r.push_back(p);
        for (auto& p : TurnProps()) r.push_back(p);
        return r;
    }();
    return v;
}
const Prop* FindProp(const std::string& id) {
    for (auto& p : Props()) if (id == p.id) return &p;
    return nullptr;
}
