// run.mjs <property id>
import { Check } from "./check.mjs";
import * as inputs from "./inputs.mjs";
import * as tree from "./tree.mjs";
import * as flow from "./flow.mjs";
import * as glue from "./glue.mjs";
import * as embed from "./embed.mjs";
const all = { ...inputs, ...tree, ...flow, ...glue, ...embed };
const id = process.argv[2], c = new Check(id);
if (!all[id]) { console.error("no such check: " + id); process.exit(2); }
process.on("unhandledRejection", e => { c.fail("unhandled-rejection", String(e)); });
// What the library throws where the check did not expect it is a finding, unless it could not be loaded at all.
try { await all[id](c); } catch (e) { console.error(e); if (e?.errors || e?.code === "ERR_MODULE_NOT_FOUND") process.exit(2); c.fail("unexpected-error", String(e?.stack ?? e)); }
c.finish();
