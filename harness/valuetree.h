// A stream of values kept as a tree, and read back from it.
#pragma once
#include "sx.h"
#include <stingraykit/serialization/Serialization.h>
#include <stingraykit/serialization/SettingsValue.h>
using namespace stingray;
// keeps what is written as a tree of values
class Tree : public ObjectOStream
{
	struct Node { bool list; SettingsValueList l; SettingsValueMap m; std::string key; };
	std::vector<Node> _stack;
public:
	SettingsValueSelfCountPtr Root; int Values;
	Tree(const FactoryContextConstPtr& c = null, IObjectSerializator* collection = NULL, bool top = false) : ObjectOStream(null, collection, c, top), Values(0) { }
	bool Done() const { return _stack.empty() && Root; }
private:
	void Put(const SettingsValueSelfCountPtr& v)
	{
		++Values; if (_stack.empty()) { SX_ASSERT(!Root, "two values are written for one"); Root = v; return; }
		Node& n = _stack.back(); if (n.list) { n.l.push_back(v); return; }
		SX_ASSERT(!n.key.empty(), "a value without a name in an object"); SX_ASSERT(n.m.insert(std::make_pair(n.key, v)).second, "a name is written twice"); n.key.clear();
	}
	template <typename T> void Val(const T& t) { Put(make_self_count_ptr<SettingsValue>(t)); }
	void WriteNull() override { Val(EmptyType()); }
	void Write(bool v) override { Val(v); }
	void Write(const FloatString& v) override { Val(v); }
	void Write(s64 v) override { Val(v); }
	void Write(const std::string& v) override { Val(v); }
	void Write(ConstByteData v) override { Val(ConstByteArray(v.begin(), v.end())); }
	void WritePropertyName(const std::string& n) override { SX_ASSERT(!_stack.empty() && !_stack.back().list && _stack.back().key.empty(), "a name out of place"); _stack.back().key = n; }
	void Begin(bool list) { Node n; n.list = list; _stack.push_back(n); }
	void End(bool list) { SX_ASSERT(!_stack.empty() && _stack.back().list == list && _stack.back().key.empty(), "an end out of place"); const Node n = _stack.back(); _stack.pop_back(); if (list) Val(n.l); else Val(n.m); }
	void BeginList() override { Begin(true); }
	void EndList() override { End(true); }
	void BeginObject() override { Begin(false); }
	void EndObject() override { End(false); }
};
template <typename T> static SettingsValueSelfCountPtr Save(const T& t) { Tree s; s.Serialize(t); SX_ASSERT(s.Done(), "the value is not written completely"); return s.Root; }
template <typename T> static void Load(const SettingsValueSelfCountPtr& v, T& t) { ObjectIStream(v.get(), NULL).Deserialize(t); }
