"""The folders trees are stored in."""
from .. import store
from ..core import Check

RULE = "a case is a sequence of save and list requests on two storage folders in a scratch directory; non-trivial if at least one save was carried out and one was refused"
ASSUMPTIONS = ["symbolic links in a storage folder are the administrator's and not generated"]
CHECKS = [Check("store", store.store_cases, store.run_store, 800, 20000)]
