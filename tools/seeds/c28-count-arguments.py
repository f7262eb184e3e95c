prop = "C28"
needs = "Counting confirmed tracks with a limit given as an argument."
breaks = "Only the first argument of a count is forwarded, so the limit of a region-restricted count is ignored."
edits = [("lmb/application.py", "        return await self._get(self.tracker.nof_targets, *args)", "        return await self._get(self.tracker.nof_targets, *args[:1])")]
demo_py = r'''
import asyncio, lmb
import lmb.application as la
class T:
    def nof_targets(self, *a): return a
async def main():
    a = la.Application(loop=asyncio.get_running_loop()); a.tracker = T()
    for args in ((), (1,), (1, 2)):
        assert await a.nof_targets(*args) == args, args
asyncio.run(main())
'''
