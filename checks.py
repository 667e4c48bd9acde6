"""Which harness (and which build configuration of /repo) decides which property."""

SMALL = " ".join([
    "-DIOX_MAX_PUBLISHERS=6", "-DIOX_MAX_SUBSCRIBERS=6", "-DIOX_MAX_SUBSCRIBERS_PER_PUBLISHER=3",
    "-DIOX_MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY=3", "-DIOX_MAX_PUBLISHER_HISTORY=3",
    "-DIOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY=4", "-DIOX_MAX_PROCESS_NUMBER=4", "-DIOX_MAX_NODE_NUMBER=4", "-DIOX_MAX_SHM_SEGMENTS=4",
    "-DIOX_MAX_NUMBER_OF_MEMPOOLS=4", "-DIOX_MAX_NUMBER_OF_CONDITION_VARIABLES=4",
    "-DIOX_MAX_NUMBER_OF_NOTIFIERS=4",
    "-DIOX_MAX_CLIENTS=4", "-DIOX_MAX_SERVERS=3", "-DIOX_MAX_CLIENTS_PER_SERVER=3",
    "-DIOX_MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY=3", "-DIOX_MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY=3",
    "-DIOX_MAX_REQUEST_QUEUE_CAPACITY=4", "-DIOX_MAX_RESPONSE_QUEUE_CAPACITY=4",
])

CONFIGS = {
    # the limits of the deployment are reduced so that exhaustion is inside the explored space
    "base": {"cmake": SMALL},
    # a whole RouDi with its introspection: its own publishers and pools need room
    "daemon": {"cmake": SMALL + " -DIOX_MAX_PUBLISHERS=9 -DIOX_MAX_SUBSCRIBERS=3 -DIOX_MAX_NUMBER_OF_MEMPOOLS=8 -DIOX_MAX_PROCESS_NUMBER=3 -DIOX_MAX_NODE_NUMBER=3"
               " -DIOX_MAX_NUMBER_OF_CONDITION_VARIABLES=2 -DIOX_MAX_INTERFACE_NUMBER=2 -DIOX_EXPERIMENTAL_POSH=ON"},
}

CHECKS = {
    "C01": {"level": "model_checking", "runs": [{"harness": "chunks", "libs": "posh"}]},
    "C02": {"level": "model_checking", "runs": [{"harness": "spsc", "libs": "hoofs"}]},
    "C03": {"level": "model_checking", "runs": [{"harness": "mpmc", "libs": "hoofs"}]},
    "C04": {"level": "model_checking", "runs": [{"harness": "pubsub", "libs": "posh"}]},
    "C05": {"level": "model_checking", "runs": [{"harness": "blocking", "libs": "posh"}]},
    "C06": {"level": "model_checking", "runs": [{"harness": "history", "libs": "posh"}]},
    "C07": {"level": "model_checking", "runs": [{"harness": "discovery", "libs": "roudi"}]},
    "C08": {"level": "model_checking", "runs": [{"harness": "reqres", "libs": "roudi"}]},
    "C09": {"level": "model_checking", "runs": [{"harness": "crash", "libs": "roudi"}]},
    "C10": {"level": "model_checking", "runs": [{"harness": "notify", "libs": "posh"}]},
    "C11": {"level": "model_checking", "runs": [{"harness": "listener", "libs": "posh"}]},
    "C12": {"level": "model_checking", "runs": [{"harness": "lifecycle", "libs": "posh"}]},
    "C13": {"level": "model_checking", "runs": [{"harness": "layout", "libs": "posh"}]},
    "C14": {"level": "model_checking", "runs": [{"harness": "api", "libs": "roudi"}]},
    "C15": {"level": "model_checking", "runs": [{"harness": "containers", "libs": "hoofs"}]},
    "C16": {"level": "model_checking", "runs": [{"harness": "vocab", "libs": "hoofs"}]},
    "C18": {"level": "model_checking", "runs": [{"harness": "relptr", "libs": "roudi"}]},
    "C17": {"level": "model_checking", "runs": [{"harness": "strings", "libs": "hoofs"}]},
    "C19": {"level": "model_checking", "runs": [{"harness": "messages", "libs": "roudi"}]},
    "C20": {"level": "model_checking", "runs": [{"harness": "daemon", "libs": "roudi", "cfg": "daemon", "os": 1}]},
    "C21": {"level": "model_checking", "runs": [{"harness": "locks", "libs": "posh", "os": 1}]},
    "C22": {"level": "model_checking", "runs": [{"harness": "posixio", "libs": "posh", "os": 1}]},
    "C24": {"level": "model_checking", "runs": [{"harness": "sync", "libs": "hoofs"}]},
    "C23": {"level": "model_checking", "runs": [{"harness": "introspect", "libs": "roudi", "cfg": "daemon", "os": 1}]},
}
