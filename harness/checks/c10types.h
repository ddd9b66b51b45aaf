// Classes for object graphs (input of the code generator)
#pragma once
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/serializable.h>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>

namespace g {
struct Node;
struct Leaf : public ReflectiveRapidJSON::BinarySerializable<Leaf> {
    std::string text;
    std::shared_ptr<Node> back;
    std::shared_ptr<int> number;
};
struct Holder : public ReflectiveRapidJSON::BinarySerializable<Holder> {
    std::shared_ptr<Node> node;
    std::pair<std::shared_ptr<int>, std::shared_ptr<std::string>> pair;
    std::list<std::shared_ptr<std::vector<std::shared_ptr<Leaf>>>> lists;
};
struct Node : public ReflectiveRapidJSON::BinarySerializable<Node> {
    int value = 0;
    std::shared_ptr<Node> a;
    std::vector<std::shared_ptr<Node>> list;
    std::map<std::string, std::shared_ptr<Leaf>> leaves;
    std::optional<std::shared_ptr<Node>> opt;
    std::variant<std::monostate, std::shared_ptr<Node>, std::shared_ptr<Leaf>, int> var;
    std::unique_ptr<Holder> holder;
    std::deque<std::shared_ptr<std::string>> strings;
    std::unordered_map<int, std::shared_ptr<Node>> hash;
    std::multimap<int, std::shared_ptr<double>> doubles;
};
struct Derived : public Node, public ReflectiveRapidJSON::BinarySerializable<Derived> {
    std::shared_ptr<Derived> other;
    std::shared_ptr<Node> last;
};
// for JSON
struct Dag : public ReflectiveRapidJSON::JsonSerializable<Dag> {
    int value = 0;
    std::shared_ptr<Dag> a, b;
    std::vector<std::shared_ptr<Dag>> list;
    std::map<std::string, std::shared_ptr<std::string>> strings;
    std::variant<std::monostate, std::shared_ptr<Dag>, std::shared_ptr<int>> var;
};
} // namespace g
