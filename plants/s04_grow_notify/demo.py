
import threading, time
from grain._src.python.ipc import variable_size_queue as v
q = v.VariableSizeQueue(1)
q.put(0)
ts = [threading.Thread(target=lambda i=i: q.put(i), daemon=True) for i in (1, 2)]
for t in ts: t.start()
time.sleep(0.5)
q.set_max_size(3)
for t in ts: t.join(5)
assert q.qsize() == 3, f"{q.qsize()} elements, a producer is still blocked"
