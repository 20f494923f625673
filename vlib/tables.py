"""Reference tables: built-in functions and decorators as documented by pycep (independent of its code)."""

from __future__ import annotations

# name: (namespace, type, required parameter names, optional parameter names, varargs)
#   varargs: None or (prefix, first index) for any further arguments
FUNCS: dict[str, tuple] = {}


def _f(ns, name, typ, req, opt=(), var=None):
    FUNCS[name] = (ns, typ, None if req is None else tuple(req), tuple(opt), var)


_f("sys", "any", "any", ["value"])
_f("sys", "array", "array", ["convert_to_array"])
_f("sys", "concat", "concat", ["arg_1"], (), ("arg_", 2))
_f("sys", "contains", "contains", ["container", "item_to_find"])
_f("sys", "empty", "empty", ["item_to_test"])
_f("sys", "first", "first", ["arg_1"])
_f("sys", "flatten", "flatten", ["array_to_flattern"])
_f("sys", "intersection", "intersection", ["arg_1", "arg_2"], (), ("arg_", 3))
_f("sys", "last", "last", ["arg_1"])
_f("sys", "length", "length", ["arg_1"])
_f("sys", "max", "max", ["arg_1"], (), ("arg_", 2))
_f("sys", "min", "min", ["arg_1"], (), ("arg_", 2))
_f("sys", "range", "range", ["start_index", "count"])
_f("sys", "skip", "skip", ["original_value", "number_to_skip"])
_f("sys", "take", "take", ["original_value", "number_to_take"])
_f("sys", "union", "union", ["arg_1", "arg_2"], (), ("arg_", 3))
_f("sys", "dateTimeAdd", "date_time_add", ["base", "duration"], ["format"])
_f("sys", "dateTimeFromEpoch", "date_time_from_epoch", ["epoch_time"])
_f("sys", "dateTimeToEpoch", "date_time_to_epoch", ["date_time"])
_f("sys", "utcNow", "utc_now", [], ["format"])
_f("az", "deployment", "deployment", None)
_f("az", "environment", "environment", None)
_f("sys", "loadFileAsBase64", "load_file_as_base64", ["file_path"])
_f("sys", "loadJsonContent", "load_json_content", ["file_path"], ["json_path", "encoding"])
_f("sys", "loadTextContent", "load_text_content", ["file_path"], ["encoding"])
_f("sys", "loadYamlContent", "load_yaml_content", ["file_path"], ["path_filter", "encoding"])
_f("sys", "filter", "filter", ["input_array", "expression"])
_f("sys", "bool", "bool", ["arg_1"])
_f("sys", "int", "int", ["value_to_convert"])
_f("sys", "json", "json", ["arg_1"])
_f("az", "pickZones", "pick_zones", ["provider_namespace", "resource_type", "location"], ["number_of_zones", "offset"])
_f("az", "reference", "reference", ["resource_identifier"], ["api_version", "full"])
_f("az", "managementGroup", "management_group", [], ["identifier"])
_f("az", "subscription", "subscription", [], ["subscription_id"])
_f("az", "tenant", "tenant", None)
_f("sys", "base64", "base64", ["input_string"])
_f("sys", "base64ToJson", "base64_to_json", ["base64_value"])
_f("sys", "base64ToString", "base64_to_string", ["base64_value"])
_f("sys", "dataUri", "data_uri", ["string_to_convert"])
_f("sys", "dataUriToString", "data_uri_to_string", ["data_uri_to_convert"])
_f("sys", "endsWith", "ends_with", ["string_to_search", "string_to_find"])
_f("sys", "format", "format", ["format_string"], (), ("arg_", 1))
_f("sys", "guid", "guid", ["base_string"], (), ("extra_string_", 1))
_f("sys", "indexOf", "index_of", ["string_to_search", "string_to_find"])
_f("sys", "join", "join", ["input_array", "delimiter"])
_f("sys", "lastIndexOf", "last_index_of", ["string_to_search", "string_to_find"])
_f("sys", "newGuid", "new_guid", None)
_f("sys", "padLeft", "pad_left", ["value_to_pad", "total_length"], ["padding_character"])
_f("sys", "replace", "replace", ["original_string", "old_string", "new_string"])
_f("sys", "split", "split", ["input_string", "delimiter"])
_f("sys", "startsWith", "starts_with", ["string_to_search", "string_to_find"])
_f("sys", "string", "string", ["value_to_convert"])
_f("sys", "substring", "substring", ["string_to_parse", "start_index"], ["length"])
_f("sys", "toLower", "to_lower", ["string_to_change"])
_f("sys", "toUpper", "to_upper", ["string_to_change"])
_f("sys", "trim", "trim", ["string_to_trim"])
_f("sys", "uniqueString", "unique_string", ["base_string"], (), ("extra_string_", 1))
_f("sys", "uri", "uri", ["base_uri", "relative_uri"])
_f("sys", "uriComponent", "uri_component", ["string_to_encode"])
_f("sys", "uriComponentToString", "uri_component_to_string", ["uri_encoded_string"])
_f("az", "extensionResourceId", "extension_resource_id", ["resource_id", "resource_type", "resource_name_1"], ["resource_name_2"], ("resource_name_", 3))
_f("az", "managementGroupResourceId", "management_group_resource_id", ["resource_type", "resource_name_1"], ["resource_name_2"], ("resource_name_", 3))
_f("az", "tenantResourceId", "tenant_resource_id", ["resource_type", "resource_name_1"], ["resource_name_2"], ("resource_name_", 3))
# argument positions depend on the argument count: see SPECIAL
SPECIAL = {
    "listKeys": ("az", 2, 2),
    "resourceId": ("az", 2, 9),
    "subscriptionResourceId": ("az", 2, 7),
    "resourceGroup": ("az", 0, 2),
}


def arity(name: str) -> tuple[int, int | None]:
    if name in SPECIAL:
        return SPECIAL[name][1:]
    _, _, req, opt, var = FUNCS[name]
    if req is None:
        return 0, 0
    return len(req), None if var else len(req) + len(opt)


def namespace(name: str) -> str:
    return SPECIAL[name][0] if name in SPECIAL else FUNCS[name][0]


KNOWN_NAMES = sorted(list(FUNCS) + list(SPECIAL))


def call_model(name: str, args: list) -> dict:
    """Expected value of `name(args...)`; `name` may carry a namespace."""
    base = name
    for ns in ("sys.", "az."):
        if name.startswith(ns) and name[len(ns) :] in KNOWN_NAMES and namespace(name[len(ns) :]) == ns[:-1]:
            base = name[len(ns) :]
    if base == "listKeys":
        p = {"func_name": "listKeys", "resource_identifier": args[0], "api_version": args[1]}
        return {"function": {"type": "list_func", "parameters": p}}
    if base == "resourceGroup":
        if len(args) == 2:
            p = {"resource_group_name": args[1], "subscription_id": args[0]}
        else:
            p = {"resource_group_name": args[0] if args else None, "subscription_id": None}
        return {"function": {"type": "resource_group", "parameters": p}}
    if base == "resourceId":
        sub = rg = None
        rest = list(args)
        if len(args) == 4:
            rg, *rest = rest
        elif len(args) > 4:
            sub, rg, *rest = rest
        p = {"subscription_id": sub, "resource_group_name": rg, "resource_type": rest[0]}
        names = rest[1:]
        if len(names) == 1 and len(args) < 5:
            names.append(None)
        p.update({f"resource_name_{i + 1}": a for i, a in enumerate(names)})
        return {"function": {"type": "resource_id", "parameters": p}}
    if base == "subscriptionResourceId":
        sub = None
        rest = list(args)
        if len(args) > 3:
            sub, *rest = rest
        names = rest[1:]
        if len(names) == 1:
            names.append(None)
        p = {"subscription_id": sub, "resource_type": rest[0]}
        p.update({f"resource_name_{i + 1}": a for i, a in enumerate(names)})
        return {"function": {"type": "subscription_resource_id", "parameters": p}}
    if base in FUNCS:
        _, typ, req, opt, var = FUNCS[base]
        if req is None:
            return {"function": {"type": typ}}
        p = {}
        rest = list(args)
        for k in req:
            p[k] = rest.pop(0)
        for k in opt:
            p[k] = rest.pop(0) if rest else None
        if var:
            for i, a in enumerate(rest):
                p[f"{var[0]}{var[1] + i}"] = a
        return {"function": {"type": typ, "parameters": p}}
    return {"function": {"type": name, "parameters": {f"arg_{i + 1}": a for i, a in enumerate(args)}}}


# decorator: (type, takes an argument)
DECOS = {
    "allowed": ("allowed", True),
    "batchSize": ("batchSize", True),
    "description": ("description", True),
    "export": ("export", False),
    "minLength": ("min_length", True),
    "maxLength": ("max_length", True),
    "minValue": ("min_value", True),
    "maxValue": ("max_value", True),
    "metadata": ("metadata", True),
    "sealed": ("sealed", False),
    "secure": ("secure", False),
}
