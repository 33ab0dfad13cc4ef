#!/usr/bin/env python3
"""Writes known-findings.json (edited by hand here, never by a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(prop, commit, what):
    F.append({"property": prop, "status": "fixed", "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})


def known(prop, key, what, history):
    F.append({"property": prop, "status": "known", "key": key, "what": what, "history": history})


fixed("C01", "e2bdf0e", "registry files were loaded in directory order and the order of diagnostics and of groups followed it")
fixed("C01", "cb9568d", "duplicate declarations were reported in hash order")
fixed("C01", "b81ef99", "statistics and diff output followed hash order")
fixed("C01", "c787f3e", "several broken policy files were reported in directory order")
fixed("C03", "8e74d8c", "an unreadable template configuration or template directory was skipped and generation succeeded with other output")
fixed("C03", "2a69ff1", "an unreadable policy or markdown directory was skipped: violations unreported, files not updated, exit 0")
fixed("C03", "6c7bed8", "two unreadable or broken policy files made the check panic")
fixed("C03", "b81e84c", "diagnostics other than policy violations were dropped in the gh_workflow_command format")
fixed("C04", "7f8388e", "an error of the last buffered write of package and completion files was ignored")
fixed("C06", "476f61a", "a kill or write error while updating a markdown file left it truncated")
fixed("C06", "e517100", "text after an unterminated managed section was deleted")
fixed("C08", "8ea8351", "live-check of OTLP input judged signals with the resource of an earlier request")
fixed("C11", "1d02175", "a /stop right after the port opened was answered at once, without the report")
fixed("C11", "f7cd0da", "with two concurrent /stop one got an error, a later one waited 60 s and got 504, and a /stop client that disconnected made the process hang forever and lost the report")
fixed("C09", "28895ba", "an admin port that could not be opened ended live-check at once with exit code 0 (infer ran on without it)")
fixed("C11", "5a8fe61", "the /stop answer of a client that asked to close the connection was truncated")
fixed("C12", "cfe8993", "emit exited 0 although export batches failed or spans and log records were dropped from the full queue")
fixed("C13", "32050f8", "live-check --emit-otlp-logs exited 0 although findings were lost in failed exports or dropped from the full queue")
fixed("C13", "2ee3561", "findings dropped or relevelled by finding filters and level overrides were emitted unmodified")
fixed("C14", "1640e29", "the definition of an attribute shared by several inferred signals was taken from any of them, by hash seed")
fixed("C02", "df32103", "artifacts printed to the console and progress lines came in scheduling order, and artifacts sharing a file name were mixed or won by schedule")
fixed("C01", "a390b51", "warnings about upgraded dependency versions were reported in hash order")
fixed("C01", "5787ede", "update-markdown processed and reported files in directory order")
fixed("C15", "d1d8fb3", "a server that stopped responding in the middle of a response hung the command for ever")
fixed("C15", "a26a7eb", "a sub-folder more than one level deep in an archive was not found, and a missing one gave an empty registry and exit code 0")
fixed("C17", "416ca4a", "links in a registry archive let later entries be written outside the target directory")
fixed("C16", "5417e62", "a rule for http://host also sent its token to http://host.evil.test (with f373676)")
fixed("C18", "992bf7c", "a read error on standard input ended live-check as if the input were complete, with exit code 0")
fixed("C19", "7a97881", "search listed template attributes that get_attribute reported as not found")
fixed("C17", "6fb7955", "a zip entry with .. components inside a sub-folder was written outside the target directory")
fixed("C17", "4f7aadb", "a remote archive holding a file of the archive's own name was overwritten while it was read")
fixed("C17", "b0c6b83", "only the first gzip member of a .tar.gz archive was read: the rest was silently missing")
fixed("C19", "d3caf47", "mcp (and serve) refused every registry with a dependency unless --v2 was given")
fixed("C20", "d3caf47", "serve refused every registry with a dependency unless --v2 was given")
known("C21", "hang-unfinished", "a Git server whose answer to the discovery or ls-refs request is complete, but whose HTTP body never ends properly (connection lost, reset or stalled before the last chunk), hangs the command for ever: "
      "gix-transport's request thread waits to hand the read error to a reader that is not reading any more while weaver waits to send the next request",
      "Transfer-Encoding: chunked answer to `command=ls-refs` with all packets, connection closed before the terminating chunk")
with open(os.path.join(HERE, "known-findings.json"), "w") as f:
    json.dump({"findings": F}, f, indent=1)
    f.write("\n")
