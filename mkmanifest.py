#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
MC = "model_checking"; EX = "exploration"; FE = "fault_enumeration"
T = "explicit-state exploration of a reference model, every trace replayed on the real code"
claims = {
 "C01": (MC, T, "Exhaustive over all call trees up to the stated size and all pairs of predicates; trusts the small model in drv/filter."),
 "C02": (MC, T + ", WHERE clauses executed by PostgreSQL", "Exhaustive over call trees up to the stated size; the meaning is decided by PostgreSQL 16 on a table holding all value combinations. An And/Or call directly followed by one of the other kind has no documented meaning and is left out."),
 "C03": (MC, T + ", WHERE clauses executed by PostgreSQL", "Exhaustive over all expressions, token sequences and short strings up to the bounds; strings outside the documented grammar may be accepted or refused but must never yield invalid SQL or input text."),
 "C04": (MC, T + ", ORDER BY executed by PostgreSQL", "Exhaustive over all strings up to the bound over keys, hyphen, comma and foreign characters."),
 "C05": (MC, T + ", windows executed by PostgreSQL", "Exhaustive over all call sequences up to the bound with boundary integers."),
 "C06": (EX, "exhaustive enumeration of bounded values of every writer, each stored value compared by PostgreSQL with an independent rendering", "All values of the bounded domain of each of the writers found in the package; PostgreSQL 16 decides what a driver value denotes."),
 "C07": (EX, "exhaustive enumeration of bounded database values for every reader, delivered by PostgreSQL and lib/pq, compared with independently built Go values", "All sources of the bounded domain for each of the readers found in the package, in sessions with three time zones, plus all writer/reader round trips."),
 "C08": (MC, "exhaustive exploration of scan histories up to a depth, each compared with the scan into a fresh variable", "All sequences of sources up to the depth for every reader; nil and empty inputs for every writer."),
 "C09": (MC, "exhaustive exploration of read/overwrite and write/overwrite histories over the bounded domain", "Every reader and writer, every value of the domain, every overwrite of the shared buffer or source."),
 "C10": (MC, "every declaration composed from the features up to the stated bounds, under each configuration variant, generated, compiled with its package and executed against the database with every filling of its fields; the database's verdict on statement, parameters and result columns is the oracle", "Exhaustive over the stated composition of query kinds, features, names, relations and configurations; every accepted declaration is executed by PostgreSQL 16 with eight fillings of its values and a row of NULLs."),
 "C11": (MC, "every SELECT declaration composed from the features up to the stated bounds, generated, compiled and executed for every combination of its argument values, compared with an independent reference query executed by PostgreSQL", "Exhaustive over the stated composition of predicates, joins, orders, limits, filters, record shapes and argument values on a database holding every combination of column values; PostgreSQL 16 executes both sides."),
 "C12": (MC, "every INSERT, UPDATE and DELETE declaration composed from the features up to the stated bounds, generated, compiled and executed on every starting table state for every record set; tables, returned rows and row counts compared with independent per-record reference statements executed by PostgreSQL", "Exhaustive over the stated composition of record types, relation shapes, outputs, conflict targets and actions, force/default/override lists, where blocks, joins, filters, record sets and table states; PostgreSQL 16 executes both sides."),
 "C13": (FE, "every bounded declaration generated, compiled and executed against a scripted driver that fails at every point of its schedule; outcome compared with a reference model", "Exhaustive over the composed declarations, the numbers of rows up to the bound, and one fault at every point (query, each row, each decoding, end of rows, affected rows, iterator refusal or panic, after-scan hooks)."),
 "C14": (MC, "exhaustive exploration of processing histories on the real code: all ordered pairs and bounded triples of events, all interleavings of the phases of two events, all map iteration starts (runtime overlay), files in every order, sequences of whole runs; compared with the event alone in a new process", "Exhaustive over the stated alphabet of declarations and configurations up to the history length; map iteration orders are enumerated by the start position the Go 1.23 runtime draws (one position for a whole run), completely for maps of up to 8 entries."),
 "C15": (MC, "explicit-state enumeration of declarations: every query shape with every pair (thorough: triple) of features in every order, every short on-conflict, join, identifier and predicate sequence; verdict compared with a rule model", "Exhaustive over the composed declarations; combinations whose legality the documentation leaves open are run but not judged."),
 "C16": (MC, "explicit-state enumeration of the matrix column type x Go type x use (write, read, every predicate); every accepted cell generated, compiled and executed by PostgreSQL on the bounded value domains of both types, compared with the SQL that denotes the value", "Exhaustive over the stated column types (with length modifiers, domains, enums, composites, arrays), Go types (plain, pointer, defined) and predicates; what is accepted must work, what is rejected is not judged."),
 "C17": (MC, "explicit-state enumeration of flag/file/default combinations, directory layouts and malformed values; every one replayed on the real configuration code", "Exhaustive over all alternatives of every option, of every pair of options (thorough: triples), all subsets of options, all assignments of contents to three nested directories, and the stated malformed values."),
 "C18": (FE, "exploration of every state of three input files and their outputs with the built command as the run transition, every placement of a rejected declaration, and write failures at every enumerated point of every output", "Exhaustive over the stated states, rejected declarations and placements, output name formats, unwritable outputs and file size limits (every 32nd byte; thorough: every 4th)."),
 "C19": (MC, "explicit-state enumeration of source files, names and file selections against a model of the selection; replayed on the search and on the built command", "Exhaustive over all files of up to two items (three of the core ones) of the item alphabet, all letter cases, and the stated selections, working directories and recursion settings."),
 "C20": (MC, "every filter declaration composed from the enumerated key settings, tags, field types, relations, constructors and names, generated, compiled and executed; column map, method set, method types and every bounded program of method calls compared with a reference model", "Exhaustive over the stated composition; all call programs (columns, nested And/Or) up to the depth on the generated methods."),
 "C21": (EX, "exhaustive enumeration of bounded inputs against an independent construction", "All (count, position) pairs of the bound and all 65535 table entries."),
}
todo = {}
exec(open('/verif/claims_extra.py').read()) if __import__('os').path.exists('/verif/claims_extra.py') else None
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in claims:
        l, t, n = claims[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": todo.get(p, "check not built yet")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
