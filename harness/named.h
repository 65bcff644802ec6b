// The functions named after a format, called like the general ones.
#pragma once
#include <Variant/Variant.h>
#include <Variant/Payload.h>

namespace vh {
	using namespace libvariant;

	struct Named {
		explicit Named(bool o) : on(o) {}
		bool on;
		template <class... A> Variant read(SerializeType t, const A &... a) const {
			if (on) switch (t) {
			case SERIALIZE_JSON: return DeserializeJSON(a...);
			case SERIALIZE_YAML: return DeserializeYAML(a...);
			case SERIALIZE_XMLPLIST: return DeserializeXMLPLIST(a...);
			case SERIALIZE_BUNDLEHDR: return DeserializeBundleHdr(a...);
			default: break;
			}
			return Deserialize(a..., t);
		}
		template <class A> Variant read_file(SerializeType t, const A &a) const {
			if (on) switch (t) {
			case SERIALIZE_JSON: return DeserializeJSONFile(a);
			case SERIALIZE_YAML: return DeserializeYAMLFile(a);
			case SERIALIZE_XMLPLIST: return DeserializeXMLPLISTFile(a);
			case SERIALIZE_BUNDLEHDR: return DeserializeBundleHdrFile(a);
			default: break;
			}
			return DeserializeFile(a, t);
		}
		template <class... A> LoadAllIterator all(SerializeType t, const A &... a) const {
			return on && t == SERIALIZE_YAML ? DeserializeYAMLAll(a...) : DeserializeAll(a..., t);
		}
		template <class A> LoadAllIterator all_file(SerializeType t, const A &a) const {
			return on && t == SERIALIZE_YAML ? DeserializeYAMLAllFile(a) : DeserializeAllFile(a, t);
		}
		// params holds at most "pretty", and nothing for YAML and bundle headers
		template <class... A> decltype(auto) write(SerializeType t, Variant params, Variant v, A... dest) const {
			bool pretty = params.IsMap() && params.Get("pretty", Variant(false)).AsBool();
			if (on) switch (t) {
			case SERIALIZE_JSON: return SerializeJSON(dest..., v, pretty);
			case SERIALIZE_YAML: return SerializeYAML(dest..., v);
			case SERIALIZE_XMLPLIST: return SerializeXMLPLIST(dest..., v, pretty);
			case SERIALIZE_BUNDLEHDR: return SerializeBundleHdr(dest..., v);
			default: break;
			}
			return Serialize(dest..., v, t, params);
		}
		// both sides of a bundle
		template <class... A> decltype(auto) write_payload(SerializeType t, Variant params, Variant v, A... dest) const {
			if (on && t == SERIALIZE_BUNDLEHDR) return SerializeBundle(dest..., v);
			return SerializeWithPayload(dest..., v, t, params);
		}
		Variant read_payload(SerializeType t, Variant params, const std::string &s) const {
			return on && t == SERIALIZE_BUNDLEHDR ? DeserializeBundle(s) : DeserializeWithPayload(s, t, params);
		}
		Variant read_payload(SerializeType t, Variant params, const void *p, unsigned len, bool safe) const {
			return on && t == SERIALIZE_BUNDLEHDR ? DeserializeBundle(p, len, safe) : DeserializeWithPayload(p, len, t, params, safe);
		}
		template <class A> Variant read_payload_file(SerializeType t, Variant params, const A &a) const {
			return on && t == SERIALIZE_BUNDLEHDR ? DeserializeBundleFile(a) : DeserializeWithPayloadFile(a, t, params);
		}
	};
}
