"""Kafka protocol v0 layouts (from the public protocol guide), independent of the analysed code.

A layout is a list of (field name, type); types: i8 i16 i32 i64 str bytes, ('arr', type),
('sized', structure) = a structure inside a bytes field, a list = structure,
'mset' = size-prefixed message set.
"""
from .domain import WBytes, Sym, encode_text, is_byteslike, chunk_repr, chunk_len



class _Widths(dict):
    def __contains__(self, k):
        return isinstance(k, str) and dict.__contains__(self, k)


W = _Widths({"i8": 1, "i16": 2, "i32": 4, "i64": 8})

API_KEYS = {"produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8,
            "offset_fetch": 9, "group_coordinator": 10, "join_group": 11, "heartbeat": 12,
            "leave_group": 13, "sync_group": 14, "describe_groups": 15, "list_groups": 16}

ERROR_CODES = {
    0: "no_error", -1: "unknown", 1: "offset_out_of_range", 2: "invalid_message",
    3: "unknown_topic_or_partition", 4: "invalid_message_size", 5: "leader_not_available",
    6: "not_partition_leader", 7: "request_timed_out", 8: "broker_not_available",
    9: "replica_not_available", 10: "message_size_too_large", 11: "stale_controller_epoch",
    12: "offset_metadata_too_large", 14: "offsets_load_in_progress",
    15: "coordinator_not_available", 16: "not_coordinator", 17: "invalid_topic",
    18: "record_list_too_large", 19: "not_enough_replicas",
    20: "not_enough_replicas_after_append", 21: "invalid_required_acks", 22: "illegal_generation",
    23: "inconsistent_group_protocol", 24: "invalid_group_id", 25: "unknown_member_id",
    26: "invalid_session_timeout", 27: "rebalance_in_progress", 28: "invalid_commit_offset_size",
    29: "topic_authorization_failed", 30: "group_authorization_failed",
    31: "cluster_authorization_failed"}

# retriable as of the protocol guide (a metadata refresh / retry can resolve it)
RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}

FATAL_SAMPLE = [-1, 4, 17, 999]           # known fatal codes and one no table knows

_pname = [("name", "str")]


def topics_of(part):
    return ("arr", [("name", "str"), ("partitions", ("arr", part))])


ASSIGNMENT = ("sized", [
    ("version", "i16"), ("topics", ("arr", [("name", "str"), ("partitions", ("arr", "i32"))])),
    ("user_data", "bytes")])

REQUESTS = {
    # module, class : api, layout
    ("metadata", "MetadataRequest"): ("metadata", [("topics", ("arr", "str"))]),
    ("produce", "ProduceRequest"): ("produce", [
        ("required_acks", "i16"), ("timeout", "i32"),
        ("topics", topics_of([("partition_id", "i32"), ("message_set", "mset")]))]),
    ("fetch", "FetchRequest"): ("fetch", [
        ("replica_id", "i32"), ("max_wait_time", "i32"), ("min_bytes", "i32"),
        ("topics", topics_of([("partition_id", "i32"), ("offset", "i64"), ("max_bytes", "i32")]))]),
    ("offset", "OffsetRequest"): ("offset", [
        ("replica_id", "i32"),
        ("topics", topics_of([("partition_id", "i32"), ("time", "i64"), ("max_offsets", "i32")]))]),
    ("offset_fetch", "OffsetFetchRequest"): ("offset_fetch", [
        ("group_name", "str"), ("topics", topics_of("i32"))]),
    ("offset_commit", "OffsetCommitV0Request"): ("offset_commit", [
        ("group", "str"),
        ("topics", topics_of([("partition_id", "i32"), ("offset", "i64"), ("metadata", "str")]))]),
    ("coordinator", "GroupCoordinatorRequest"): ("group_coordinator", [("group", "str")]),
    ("heartbeat", "HeartbeatRequest"): ("heartbeat", [
        ("group_id", "str"), ("generation_id", "i32"), ("member_id", "str")]),
    ("leave_group", "LeaveGroupRequest"): ("leave_group", [("group_id", "str"), ("member_id", "str")]),
    ("list_groups", "ListGroupsRequest"): ("list_groups", []),
    ("describe_groups", "DescribeGroupsRequest"): ("describe_groups", [("groups", ("arr", "str"))]),
    ("offset_commit", "OffsetCommitV1Request"): ("offset_commit", [
        ("group", "str"), ("generation", "i32"), ("consumer_id", "str"),
        ("topics", topics_of([("partition_id", "i32"), ("offset", "i64"), ("timestamp", "i64"),
                              ("metadata", "str")]))]),
    ("offset_commit", "OffsetCommitV2Request"): ("offset_commit", [
        ("group", "str"), ("generation", "i32"), ("consumer_id", "str"), ("retention_time", "i64"),
        ("topics", topics_of([("partition_id", "i32"), ("offset", "i64"), ("metadata", "str")]))]),
    ("join_group", "JoinGroupRequest"): ("join_group", [
        ("group_id", "str"), ("session_timeout", "i32"), ("member_id", "str"), ("protocol_type", "str"),
        ("group_protocols", ("arr", [("name", "str"), ("metadata", ("sized", [
            ("version", "i16"), ("subscription", ("arr", "str")), ("user_data", "bytes")]))]))]),
    ("sync_group", "SyncGroupRequest"): ("sync_group", [
        ("group_id", "str"), ("generation_id", "i32"), ("member_id", "str"),
        ("assignments", ("arr", [("member_id", "str"), ("assignment", ASSIGNMENT)]))]),
}

# the version of the api a request is laid out for
VERSIONS = {"OffsetCommitV1Request": 1, "OffsetCommitV2Request": 2}

# classes of the structures in the fields above
ITEMS = {
    "*": {"topics": "TopicRequest", "partitions": "PartitionRequest"},
    "OffsetCommitV1Request": {"topics": "TopicV1Request", "partitions": "PartitionV1Request"},
    "JoinGroupRequest": {"group_protocols": "GroupProtocol", "metadata": "ProtocolMetadata"},
    "SyncGroupRequest": {"assignments": "MemberAssignment", "assignment": "Assignment",
                         "topics": "TopicAssignment"},
}

RESPONSES = {
    ("metadata", "MetadataResponse"): ("metadata", [
        ("brokers", ("arr", [("broker_id", "i32"), ("host", "str"), ("port", "i32")])),
        ("topics", ("arr", [("error_code", "i16"), ("name", "str"), ("partitions", ("arr", [
            ("error_code", "i16"), ("partition_id", "i32"), ("leader", "i32"),
            ("replicas", ("arr", "i32")), ("isrs", ("arr", "i32"))]))]))]),
    ("produce", "ProduceResponse"): ("produce", [
        ("topics", topics_of([("partition_id", "i32"), ("error_code", "i16"), ("offset", "i64")]))]),
    ("fetch", "FetchResponse"): ("fetch", [
        ("topics", topics_of([("partition_id", "i32"), ("error_code", "i16"),
                              ("highwater_mark_offset", "i64"), ("message_set", "mset")]))]),
    ("offset", "OffsetResponse"): ("offset", [
        ("topics", topics_of([("partition_id", "i32"), ("error_code", "i16"),
                              ("offsets", ("arr", "i64"))]))]),
    ("offset_fetch", "OffsetFetchResponse"): ("offset_fetch", [
        ("topics", topics_of([("partition_id", "i32"), ("offset", "i64"), ("metadata", "str"),
                              ("error_code", "i16")]))]),
    ("offset_commit", "OffsetCommitResponse"): ("offset_commit", [
        ("topics", topics_of([("partition_id", "i32"), ("error_code", "i16")]))]),
    ("coordinator", "GroupCoordinatorResponse"): ("group_coordinator", [
        ("error_code", "i16"), ("coordinator_id", "i32"), ("coordinator_host", "str"),
        ("coordinator_port", "i32")]),
    ("heartbeat", "HeartbeatResponse"): ("heartbeat", [("error_code", "i16")]),
    ("leave_group", "LeaveGroupResponse"): ("leave_group", [("error_code", "i16")]),
    ("list_groups", "ListGroupsResponse"): ("list_groups", [
        ("error_code", "i16"), ("groups", ("arr", [("group_id", "str"), ("protocol_type", "str")]))]),
    ("join_group", "JoinGroupResponse"): ("join_group", [
        ("error_code", "i16"), ("generation_id", "i32"), ("protocol", "str"), ("leader_id", "str"),
        ("member_id", "str"), ("members", ("arr", [("member_id", "str"), ("metadata", "bytes")]))]),
    ("sync_group", "SyncGroupResponse"): ("sync_group", [("error_code", "i16"), ("assignment", ASSIGNMENT)]),
    ("describe_groups", "DescribeGroupsResponse"): ("describe_groups", [("groups", ("arr", [
        ("error_code", "i16"), ("group_id", "str"), ("state", "str"), ("protocol_type", "str"),
        ("protocol", "str"), ("members", ("arr", [
            ("member_id", "str"), ("client_id", "str"), ("client_host", "str"), ("metadata", "bytes"),
            ("assignment", ASSIGNMENT)]))]))]),
}


def num(t, v):
    return ("n", W[t], True, ">", v)


def unum(w, v):
    return ("n", w, False, ">", v)


def enc(t, v):
    """chunks of value v of type t; structures are dicts, message sets lists of chunk tuples"""
    if t in W:
        return [num(t, v)]
    if t in ("str", "bytes"):
        pre = "i16" if t == "str" else "i32"
        if v is None:
            return [num(pre, -1)]
        w = v if is_byteslike(v) else WBytes.of(encode_text(v))
        w = WBytes.of(w)
        return [num(pre, w.length())] + list(w.chunks)
    if t == "mset":
        n = 0
        for c in v:
            n = n + chunk_len(c)
        return [num("i32", n)] + list(v)
    if isinstance(t, tuple) and t[0] == "sized":
        if v is None:
            return [num("i32", -1)]
        body = WBytes(enc(t[1], v))
        return [num("i32", body.length())] + list(body.chunks)
    if isinstance(t, tuple):
        out = [num("i32", -1 if v is None else len(v))]
        v = v or ()
        for x in v:
            out += enc(t[1], x)
        return out
    out = []
    for name, ft in t:
        out += enc(ft, v[name])
    return out


def message_chunks(offset, key, value, crc32, attributes=0, magic=0):
    """chunks of one message with its offset and size; crc32 is the checksum function"""
    body = WBytes([num("i8", magic), num("i8", attributes)] + enc("bytes", key) + enc("bytes", value))
    crc = crc32(body.norm())
    msg = [("n", 4, not (isinstance(crc, int) or (crc.bounds()[0] or 0) >= 0), ">", crc)] + list(body.chunks)
    n = 4 + body.length()
    return [num("i64", offset), num("i32", n)] + msg


def same(a, b):
    """None when byte string a certainly equals b, else a description of the first difference"""
    a, b = WBytes.of(a), WBytes.of(b)
    if a.chunks == b.chunks:
        return None
    ac, bc = _explode(a), _explode(b)
    pos = 0
    i = 0
    while i < len(ac) and i < len(bc):
        x, y = ac[i], bc[i]
        if x[0] == "n" and y[0] == "n" and x[1] == y[1] and x[3] == y[3]:
            d = x[4] - y[4]
            if isinstance(d, Sym):
                lo, hi = d.bounds()
                if lo is not None and lo == hi:
                    d = lo
            if not (isinstance(d, int) and d % (1 << (8 * x[1])) == 0):
                return "at byte %r: have %s, need %s" % (pos, chunk_repr(x), chunk_repr(y))
        elif x[0] == "o" and y[0] == "o" and x[1] == y[1]:
            d = x[2] - y[2]
            if not (isinstance(d, int) and d == 0):
                return "at byte %r: have %s, need %s" % (pos, chunk_repr(x), chunk_repr(y))
        elif x == y:
            pass
        else:
            return "at byte %r: have %s, need %s" % (pos, chunk_repr(x), chunk_repr(y))
        pos = pos + chunk_len(x)
        i += 1
    if len(ac) != len(bc):
        rest = ac[i:] or bc[i:]
        return "at byte %r: %s %s" % (pos, "extra" if ac[i:] else "missing",
                                      " ".join(chunk_repr(c) for c in rest[:6]))
    return None


def _explode(w):
    out = []
    for c in w.chunks:
        if c[0] == "c":
            out.extend(("c", bytes([x])) for x in c[1])
        elif c[0] == "o" and isinstance(c[2], Sym) and c[2].bounds() == (0, 0):
            continue
        elif c[0] == "n" and isinstance(c[4], Sym) and c[4].bounds()[0] is not None \
                and c[4].bounds()[0] == c[4].bounds()[1]:
            v = c[4].bounds()[0]
            raw = (v % (1 << (8 * c[1]))).to_bytes(c[1], "big" if c[3] == ">" else "little")
            out.extend(("c", bytes([x])) for x in raw)
        else:
            out.append(c)
    return out
