#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state: a["state"] = [{"name": state, "meaning": state}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T = "ocelot/transformations/"
# ------------------------------------------------------------------ allocation
p("A01", "Cut-off allocation yields single-product activities covering all outputs",
  "Every activity returned by the cut-off allocation step has exactly one reference product with a nonzero amount and no by-product that is an allocatable product with a nonzero amount. Every allocatable by-product and every reference product of an allocated activity (except a recyclable that recycling turns into an input) becomes the reference product of a returned activity, no other products appear, and activities that need no allocation pass through unchanged.",
  ["inputs"], "For all lists of well-formed unallocated activities (any activity type, number and sign of reference products, by-product classifications and amounts).",
  "The outcome depends on combinations of activity type, signs, classifications and amounts across a list of datasets; tests sample a few hand-made activities, one method at a time.",
  [T+"cutoff/allocation.py", T+"cutoff/economic.py", T+"cutoff/combined.py", T+"cutoff/wastes.py", T+"cutoff/markets.py", T+"utils.py", "ocelot/wrapper.py"],
  ["label_allocation_method + filtered TransformationWrapper per method", "choose_reference_product_exchange"],
  "list of datasets with exchanges", "return value of cutoff_allocation")
p("A02", "The allocation method is the documented function of the activity",
  "For every activity, the allocation method chosen is the one given by the documented decision tree over: activity type, number of nonzero reference products, sign and classification of the reference product, presence of nonzero allocatable by-products, and presence of conditional exchanges. The choice is independent of exchange order and of every other attribute of the activity (apart from the one rare-earth activity that is always allocated economically by name), and making it does not modify the activity.",
  ["inputs"], "For all activities, over the full cross product of the decision variables.",
  "The tree has hundreds of combinations of its inputs; the tests take about one activity per leaf.",
  [T+"cutoff/allocation.py"], ["choose_allocation_method decision tree", "allocatable_production"],
  None, "choose_allocation_method / 'allocation method' label")
p("A03", "Economic allocation splits by revenue or true value and conserves every flow",
  "Economic allocation gives each allocatable output the share revenue/total revenue (revenue = price times amount), except that outputs with a true-value relation divide their joint revenue share in proportion to true value times amount; the shares sum to one. Consequently, for every other exchange of the activity, the amounts in the resulting activities, weighted by the original output amounts, add up to the original amount; missing or negative prices or negative output amounts are rejected.",
  ["inputs"], "For all activities with any number of priced outputs, any mix of outputs with and without true-value relation, and any non-production exchanges.",
  "Conservation is an algebraic law over all amounts and prices; a test fixes one numeric example.",
  [T+"cutoff/economic.py", T+"cutoff/utils.py", T+"utils.py", T+"cutoff/validation.py"],
  ["economic_allocation factor computation", "apply_allocation_factors", "choose_reference_product_exchange scaling"],
  "exchange amounts", "return value of economic_allocation")
p("A04", "Waste treatment keeps all burdens; recycling turns the recyclable into an input",
  "Allocating a waste treatment activity returns one activity that consumes the waste and carries all original inputs and emissions (per unit of waste), plus one burden-free activity per allocatable by-product containing only that product. Allocating a recycling activity turns its (negative) reference product into a positive technosphere input and then shares all exchanges, including that input, among the allocatable by-products by economic allocation.",
  ["inputs"], "For all treatment and recycling activities, with any set of by-products (allocatable, waste, recyclable), amounts and other exchanges.",
  "Depends on the combination of classifications and amounts; tests check a single small example per method.",
  [T+"cutoff/wastes.py", T+"utils.py", T+"cutoff/validation.py"], ["waste_treatment_allocation", "recycling_allocation"],
  None, "return values of the two allocation functions")
p("A05", "Combined production subdivides into one recomputed activity per product",
  "Subdividing a combined production activity gives exactly one activity per nonzero reference product, in which that product keeps its amount, all other reference products are zero, and every parameterized exchange has the value its formula takes in that situation while unparameterized exchanges keep theirs; the source activity is not altered. With allocatable by-products, the resulting activities for the same product are merged by adding amounts exchange by exchange; without allocatable reference products, waste parts are allocated as waste treatment and recyclable parts as recycling under a distinguishable name.",
  ["inputs"], "For all combined production activities: any number of reference products, any formulas over the product variables and parameters, any by-products.",
  "Formula re-evaluation couples all exchanges and parameters; the existing tests cover single datasets and the note in the source says recalculation must be tested manually.",
  [T+"cutoff/combined.py", T+"parameterization/recalculation.py", T+"consequential/combined.py"],
  ["combined_production", "merge_byproducts/add_exchanges", "handle_split_dataset", "recalculate"],
  None, "return values of the combined production functions")
p("A06", "Normalization scales an activity to one unit without changing any ratio",
  "Normalization gives an activity a reference product amount of exactly plus or minus one, keeping the sign, and multiplies every exchange (and its uncertainty) by the same positive factor, so all ratios between exchange amounts are preserved; nothing else changes. An activity whose reference product amount is zero is rejected, and an activity with no or several reference products is rejected.",
  ["inputs"], "For all activities and all magnitudes and signs of amounts.",
  "A law over all amounts, including very small, very large and negative ones, and all uncertainty types.",
  [T+"utils.py", T+"uncertainty/__init__.py"], ["normalize_reference_production_amount", "scale_exchange"],
  None, "return value of normalize_reference_production_amount")
# ------------------------------------------------------------------ hard links and PV
p("H01", "Hard links subtract exactly their volume from the linked producer",
  "For every hard (activity) link to another activity, the volume subtracted from the linked product is the link amount times the consuming activity's largest (by absolute value) production-volume-to-amount ratio over its reference products, accumulated over all links; links of an activity to itself subtract nothing. Transforming activities end with production volume max(original - subtracted, 0) with the original volume recorded; products without links, and market volumes, are not changed at this stage.",
  ["inputs"], "For all lists of activities and all hard-link graphs between them, including several links to one product, self links and multi-output consumers.",
  "The result depends on the whole link graph and accumulation over all datasets.",
  [T+"activity_links.py", T+"utils.py"], ["add_hard_linked_production_volumes", "update_transforming_activity_production_volumes", "get_biggest_pv_to_exchange_ratio"],
  "production volume records", "return value of manage_activity_links")
p("H02", "Unresolvable hard links are rejected; children never link to their parent",
  "A list of activities is accepted only if every hard link names an existing activity that has exactly one reference product or allocatable by-product of the linked name; otherwise it is rejected before any production volume is touched. Links of non-production exchanges of a derived activity to its parent are redirected to the activity itself, zero-amount links and links on reference products are dropped, and no other link is altered.",
  ["inputs"], "For all lists of activities and link graphs, including missing targets, ambiguous targets and parent/child chains.",
  "Validity is a global condition on the link graph; tests show one instance of each error.",
  [T+"activity_links.py", T+"cutoff/cleanup.py"], ["check_activity_link_validity", "update_activity_link_parent_child", "drop_zero_amount_activity_links", "drop_rp_activity_links"],
  None, "return value or exception of the functions")
p("H03", "By-product production volumes follow the activity's production scale",
  "Each allocatable by-product without a production volume gets the absolute value of its amount times the activity's largest production-volume-to-amount ratio, volumes already present are kept, and production exchanges lacking a production volume record are rejected. Production volume variables are moved to parameters with the same name, value and formula, and production volume formulas are removed, so volumes never change on later recalculation.",
  ["inputs"], "For all activities with any reference products, by-products and parameterized production volumes.",
  "Needs all combinations of signs, zero volumes and several reference products.",
  [T+"production_volumes.py", T+"validation.py", T+"parameterization/production_volumes.py"],
  ["add_pv_to_allocatable_byproducts", "ensure_production_exchanges_have_production_volume", "create_pv_parameters"],
  None, "return value of pv_cleanup")
# ------------------------------------------------------------------ locations
p("L01", "Location algebra: containment and Rest-of-World follow set inclusion of faces",
  "For all locations, containment answers equal inclusion of their sets of topological faces (after subtracting given locations), the Rest-of-World of a set of locations is exactly the part of the globe none of them covers, and an undefined or empty Rest-of-World neither contains nor is contained (except that the globe contains an undefined one). Overlap is reported exactly when two locations share a face, and ordering by size is a total order from largest to smallest independent of input order; answers never depend on earlier queries.",
  ["inputs", "histories"], "For all locations known to the system, all subtract lists and Rest-of-World definitions, and all sequences of queries (results are cached).",
  "There are hundreds of locations and the functions memoize results across calls; tests check a few named regions.",
  [T+"locations/_topology.py", T+"locations/validation.py"], ["Topology.contains/contained/resolve_row/overlaps/ordered_dependencies", "lru_cache memoization"],
  "face sets and query caches", "return values of Topology methods")
p("L02", "Global activities become Rest-of-World exactly when regional ones exist",
  "In every group of activities with the same name and the same (nonzero) products, a global activity is relabelled Rest-of-World if and only if the group has other members, and its production volume becomes max(global volume minus the sum of the regional original volumes, 0), with the global volume recorded; more than one global activity in such a group is rejected. Market groups and all other activities are untouched, and a market group located in Rest-of-World is rejected.",
  ["inputs"], "For all lists of activities with any names, products, locations and volumes.",
  "A grouping law over whole databases, with volume subtraction interacting with hard-link subtraction.",
  [T+"locations/rest_of_world.py", T+"locations/validation.py", T+"locations/market_groups.py", "ocelot/data_helpers.py"],
  ["relabel_global_to_row", "check_single_global_dataset", "check_no_row_market_groups", "original_production_volume"],
  None, "return value of relabel_global_to_row")
p("L03", "A market's suppliers are exactly the producers located inside it",
  "Each market lists as suppliers exactly those transforming activities that produce its product and whose location (with Rest-of-World resolved against same-named producers) lies entirely within the market's location (with Rest-of-World resolved against the product's other markets), so no producer supplies two markets of a product. Overlapping markets of a product or overlapping same-named producers are rejected; recycled-content producers supply the markets of the corresponding primary product, and a market they reach has no other suppliers.",
  ["inputs"], "For all lists of markets and producers over all locations, including Rest-of-World and global ones.",
  "Geographic containment of all combinations of locations and Rest-of-World definitions.",
  [T+"locations/markets.py", T+"locations/validation.py", T+"locations/_topology.py"],
  ["add_suppliers_to_markets", "apportion_market_suppliers_to_consumers", "add_recycled_content_suppliers_to_markets", "no_overlaps"],
  None, "'suppliers' of market datasets")
p("L04", "Supplier shares are proportional to production volume and sum to the demand",
  "When suppliers are allocated to a market, each supplier with nonzero production volume gets an input of (its volume / total volume) times the market's reference product amount and suppliers without volume get none, so the new inputs add up to the market's production; a single supplier without volume supplies everything, and several suppliers all without volume leave the market without new inputs. Splitting a consumer's exchange over several suppliers follows the same proportions, conserves the exchange amount, replaces only that exchange and keeps its other attributes.",
  ["inputs"], "For all supplier lists, production volumes and amounts, including negative amounts and zero volumes.",
  "A proportionality law over all volume vectors, with several zero-volume corner cases.",
  [T+"locations/markets.py"], ["allocate_suppliers", "allocate_all_market_suppliers"],
  None, "exchanges of the datasets after allocation")
p("L05", "Market production volume is the net supply of its producers, never negative",
  "After updating, each market's production volume is max(sum of its suppliers' current production volumes minus the volume hard-linked to the market itself, 0), and the total before hard-link subtractions is recorded. Market groups are updated from smaller to larger so that a group supplied by other groups uses their updated volumes, and no other volume changes.",
  ["inputs"], "For all supplier lists, hard-link subtractions and nesting structures of market groups.",
  "Depends on ordering over nested groups and on accumulated hard-link subtractions.",
  [T+"locations/markets.py"], ["update_market_production_volumes"], None, "production volume of market reference products")
p("L06", "Market groups draw on the largest contained markets without double counting",
  "Suppliers of a market group are markets and other market groups of the same product lying within its location, chosen from largest to smallest so that each chosen one lies in the part of the location not covered by the regions chosen before, preferring the market where a market and a group share a location, and never the group itself. A contained market is left out only when it overlaps a chosen supplier, so no market is drawn upon twice within one group, and groups of one product with different names are rejected.",
  ["inputs"], "For all sets of markets and market groups over all locations.",
  "A greedy covering law over arbitrary overlapping location sets.",
  [T+"locations/market_groups.py", T+"locations/_topology.py"], ["link_market_group_suppliers"], None, "'suppliers' of market groups")
p("L07", "Consumers are linked to the right markets and their demand is conserved",
  "Every unlinked technosphere input of an activity is linked to the markets or market groups of that product lying within the activity's location, taken from largest to smallest without overlap, or, if there are none, to the smallest one containing it; with several, the demand is split by production volume and the total is unchanged. Several candidates all without volume leave the input unlinked; already linked inputs, other exchanges and market groups are untouched, and a product without any market is rejected (except refinery gas, which stays unlinked). Inputs of recycled content are linked directly to their single producer.",
  ["inputs"], "For all databases of consumers, markets and market groups over all locations, including Rest-of-World consumers and markets.",
  "The outcome depends on geographic relations of all markets of a product and on volumes.",
  [T+"locations/linking.py", T+"locations/markets.py"], ["link_consumers_to_markets", "allocate_suppliers", "link_consumers_to_recycled_content_activities"],
  None, "exchanges after link_consumers_to_markets")
p("L08", "Activity codes are unique and every link resolves to a producer of that product",
  "Activity codes are determined by name, reference product, unit, location and time period (case-insensitive), are unique within a database (duplicates are rejected), and each reference product carries the code of its activity. After linking, every technosphere input that carries a code points to an existing activity whose reference product is that input (or its recycled-content variant), hard-linked inputs to the activity they name, and no technosphere input without a code remains.",
  ["inputs"], "For all databases that pass through the linking steps.",
  "A closure law over the whole linked database; tests link two or three datasets.",
  [T+"identifying.py", T+"utils.py", T+"locations/linking.py", T+"locations/__init__.py", T+"locations/markets.py"],
  ["activity_hash/add_unique_codes", "actualize_activity_links", "add_reference_product_codes", "log_and_delete_unlinked_exchanges", "delete_global_with_zero_pv_when_regional_present"],
  None, "database after link_markets_by_pv")
# ------------------------------------------------------------------ wastes
p("W01", "Recyclable by-products are cut off with one burden-free activity per product",
  "Every recyclable by-product is renamed with the recycled-content suffix, and for each distinct renamed product exactly one global activity is added that has that product as its only exchange, with amount one; nothing else changes. After linking, the suffix is removed from all flow names and reference product labels but not from activity names.",
  ["inputs"], "For all databases with any number of recyclable by-products, shared or distinct, in any order.",
  "A counting law over all activities of a database.",
  [T+"cutoff/wastes.py"], ["rename_recyclable_content_exchanges", "create_recycled_content_datasets", "rename_recycled_content_products_after_linking"],
  None, "return value of handle_waste_outputs and of the rename step")
p("W02", "Non-allocatable outputs become inputs of opposite sign; market signs agree",
  "Every waste or recyclable by-product becomes a technosphere input with the opposite amount, the mirrored uncertainty distribution and the negated formula, while allocatable by-products and all other exchanges stay as they are. A non-waste market whose exchanges are all nonpositive has all of them negated, one whose reference product alone is negative has the exchanges of that product negated, and every other activity is untouched.",
  ["inputs"], "For all activities, classifications, amounts and formulas.",
  "Case distinctions over classifications and signs of every exchange.",
  [T+"cutoff/wastes.py", T+"cutoff/markets.py"], ["flip_non_allocatable_byproducts", "adjust_market_signs_for_allocatable_products"],
  None, "return values")
# ------------------------------------------------------------------ consequential
p("Q01", "Constrained markets swap roles with the linked activity, conserving magnitudes",
  "For every conditional exchange of a market, the exchange becomes a technosphere input with opposite amount; in the activity it links to, the former reference product becomes an input with opposite amount and the input of the constrained product becomes the reference product with opposite amount (uncertainty distributions and formulas are negated with the amounts), and no other exchange changes. Hard links other than conditional exchanges that point to an activity which is the target of a conditional exchange are removed first, links to any other activity are kept.",
  ["inputs"], "For all databases with any number of constrained markets and links.",
  "Couples several datasets through links; tests use one constrained market.",
  [T+"consequential/constrained_markets.py"], ["handle_constrained_markets", "delete_activity_links_to_constrained_markets"],
  None, "return values")
p("Q02", "Consequential markets keep exactly the best available technology suppliers",
  "A market or market group with suppliers keeps exactly those of the most modern technology level present (new, then modern, current, old, outdated), keeps at least one, and other activities are untouched; if no supplier has a known level the market is rejected. A database is accepted only if every by-product is also the reference product of some activity.",
  ["inputs"], "For all supplier lists and technology levels, and all databases.",
  "All combinations of levels across suppliers and markets.",
  [T+"consequential/market_linking.py", T+"consequential/byproducts.py", T+"consequential/technology_levels.py"],
  ["prune_suppliers_by_technology_level", "ensure_byproducts_have_alternative_production"], None, "return values or exceptions")
# ------------------------------------------------------------------ uncertainty
p("U01", "Scaling an exchange scales its uncertainty distribution with it",
  "Scaling an exchange by any factor multiplies its amount by that factor and leaves a distribution that matches: lognormal mean, log-mean and sign flag follow the new amount and its spread is unchanged, normal variance scales with the square of the factor, bounds and modes of triangular, uniform and undefined distributions scale with the factor with minimum not above maximum. Scaling by one changes nothing, scaling by zero gives amount zero without a misleading distribution, and scaling by a then b equals scaling by a times b.",
  ["inputs", "histories"], "For all distributions, amounts, and finite sequences of factors of any sign.",
  "An algebraic law over all amounts, factors and their composition.",
  [T+"uncertainty/distributions.py", T+"uncertainty/__init__.py"], ["scale_exchange", "rescale methods"], None, "exchange after scaling")
p("U02", "Repaired uncertainty is always consistent with the amount",
  "After repair, an uncertainty distribution is consistent with its amount (lognormal mean = |amount|, log-mean = ln mean and sign flag correct; normal mean = amount; triangular mode = amount within ordered bounds; uniform amount midway between ordered bounds, or triangular otherwise) or it has been removed as meaningless; degenerate distributions are removed, and implausible lognormal variances are reduced below one. The amount itself is never changed, repairing twice is the same as once, and all exchanges, production volumes, properties and parameters of a database are covered.",
  ["inputs"], "For all distributions and amounts in any position of a dataset.",
  "Consistency over all parameter combinations and idempotence.",
  [T+"uncertainty/distributions.py", T+"parameterization/uncertainty.py", T+"utils.py"], ["repair methods", "repair_all_uncertainty_distributions", "iterate_all_uncertainties"],
  None, "objects after repair")
p("U03", "Temporal pedigree scores follow the published table and never improve",
  "Applying a dataset to a year different from its end year raises the temporal-correlation score according to the published table of current score and year distance, and the score never decreases nor leaves 1..5; with no distance or no pedigree matrix nothing changes. The added variance of a pedigree matrix is the sum of the tabulated values of its scores, and a lognormal total variance after adjustment equals its basic variance plus that sum.",
  ["inputs"], "For all scores, year distances (dates or integers) and pedigree matrices.",
  "A finite but large table of combinations, of which tests take a few rows.",
  [T+"uncertainty/pedigree.py", T+"uncertainty/__init__.py", T+"uncertainty/distributions.py"],
  ["adjust_pedigree_matrix_time", "get_pedigree_variance", "Lognormal.recalculate"], None, "return values")
# ------------------------------------------------------------------ formulas
p("U04", "Distributions handed to sampling are those the exchange states",
  "For an object whose uncertainty is consistent with its amount, as read, after scaling and after repair, the stats_arrays description says the same distribution: the amount; for lognormal the logarithm of its size as location and the square root of the variance with pedigree uncertainty as scale, negative exactly for a negative amount; for normal the amount and the square root of that variance; for triangular the amount as mode and the bounds; for uniform the bounds; a fixed value otherwise. Samples follow it: they have the amount's sign, lie within the bounds, or spread as far as the variance says. Neither description nor sampling changes the object.",
  ["inputs", "histories"], "For all consistent distributions and amounts, scaled by any factor or repaired.",
  "Tests describe one object per distribution; sign, order of bounds and variance versus standard deviation matter after scaling by negative factors and repair.",
  [T+"uncertainty/distributions.py"], ["to_stats_arrays", "sample"], None, "description and draws")
p("F01", "Translated formulas keep their meaning and are evaluable, or are removed",
  "Translating a formula from the source dialect (conditional clauses, powers, percent, caret, line breaks, mixed case, names that are reserved words) yields a formula with the same value under every assignment of its variables, with formula and variable names renamed consistently within an activity. Formulas that cannot be parsed after translation are removed and their amounts kept; formulas and names that need no translation are unchanged apart from case.",
  ["inputs"], "For all formulas of the dialect, arbitrarily nested, and all variable assignments.",
  "Arbitrary nesting of conditionals and operators; tests list a few strings.",
  [T+"parameterization/python_compatibility.py", T+"parameterization/__init__.py"],
  ["fix_math_formulas", "lowercase_all_parameters", "replace_reserved_words", "delete_unparsable_formulas"], None, "formulas after fix_ecoinvent_parameters")
p("F02", "Recalculation makes every parameterized amount equal its formula's value",
  "After recalculation, every exchange, production volume, property and parameter with a formula has the value of that formula under the final values of all named variables (evaluated in dependency order), a formula that divides by zero counts as zero, values without formula are unchanged, and recalculating again changes nothing. Uncertainty distributions are brought in line with the new amounts; a dataset with circular or undefined references is rejected rather than silently miscomputed.",
  ["inputs"], "For all dependency graphs of variables and formulas, in any order of declaration.",
  "Arbitrary dependency graphs and evaluation orders; the source notes that recalculation is tested manually only.",
  [T+"parameterization/recalculation.py", T+"utils.py"], ["recalculate", "TolerantParameterSet", "iterate_all_parameters"], None, "dataset after recalculate")
p("F03", "Implicit references and duplicate variable names are resolved or rejected",
  "Every reference to an exchange, parameter or production volume by identifier inside a formula is replaced by the variable of the element it refers to, an existing name being reused and a fresh one unique to that element being created otherwise, so the formula denotes the referenced amount; a reference to a missing element is rejected. Two elements of one activity with the same variable name are rejected, and names in different activities do not interfere.",
  ["inputs"], "For all activities and reference patterns, including several references in one formula and several formulas referring to one element.",
  "Combinations of references across elements and datasets.",
  [T+"parameterization/implicit_references.py", T+"parameterization/validation.py", "ocelot/io/ecospold2_meta.py"],
  ["replace_implicit_references", "variable_names_are_unique"], None, "formulas and variables after replacement")
# ------------------------------------------------------------------ system
p("S01", "Extraction never returns stale, truncated or foreign cached data",
  "Extracting a directory with the cache enabled returns the same data as extracting it afresh, whatever sequence of source changes, additions, removals, extractions and crashes while writing the cache happened before; caches of different directories never mix. With the cache disabled it is neither read nor written.",
  ["histories", "crash_points"], "For all histories of edits to source directories, extractions, and process deaths at any point of the cache write.",
  "Depends on the interleaving of edits, extractions and crashes and on file time stamps; tests check single steps.",
  ["ocelot/io/__init__.py", "ocelot/filesystem.py"], ["check_cache_directory", "cache_data", "get_from_cache", "get_cache_filepath_for_data_path"],
  "cache file and source files", "return value of extract_directory")
p("S02", "A run applies every transformation once, in order, and records it faithfully",
  "A model run applies each transformation of its configuration (flattened, however nested) exactly once and in order, each to the result of the one before, and returns the last result together with the run directory. Its log holds a run start, then for each transformation consecutively numbered start and end events with the number of datasets before and after, and a run end; the directory holds exactly the intermediate results selected by the saving strategy, the followed datasets after each transformation, and the final results, each equal to the data at that point.",
  ["inputs", "histories"], "For all configurations (lists, nested lists, collections, partial functions), saving strategies, followed names, and sequences of runs in one process.",
  "A law over all configurations and over several runs in one process.",
  ["ocelot/model.py", "ocelot/collection.py", "ocelot/wrapper.py", "ocelot/utils.py", "ocelot/filesystem.py", "ocelot/logger.py"],
  ["system_model/apply_transformation", "save_intermediate_result", "save_specific_dataset"], "run directory, log", "log file, pickles and return value")
p("S03", "An interrupted run leaves no output and disturbs nothing else",
  "If a run is interrupted by the user at any point after its output directory was created, the program exits with a failure status and the run's output directory is gone, while directories of other runs, the cache and the sources are unchanged; a transformation that fails with an error propagates it and keeps the output for inspection. A later run in the same environment is unaffected.",
  ["crash_points", "histories"], "For all points of a run (every transformation, saving, logging, report writing) at which the interrupt may arrive.",
  "The interrupt can arrive at any point of the run.",
  ["ocelot/model.py", "ocelot/filesystem.py"], ["KeyboardInterrupt handler in system_model", "OutputDir"], "output directory", "file system after the run")
p("S04", "Each run's logs contain that run's events only",
  "The report log and the detailed log of a run contain exactly the events emitted during that run, in order, one JSON object per line with a time stamp, whatever runs were executed before in the same process; a finished or failed run's logs are never altered by a later run. Detailed log entries identify the dataset by id, file name and code.",
  ["histories"], "For all sequences of completed, failed and interrupted runs in one process.",
  "Requires several runs in a process.",
  ["ocelot/logger.py", "ocelot/model.py"], ["create_log", "create_detailed_log", "JsonFormatter"], "log handlers", "log files")
p("S05", "The saving strategy selects exactly the documented steps",
  "A strategy n selects exactly the steps divisible by n, a strategy a:b exactly the steps from a to b inclusive, a strategy a:b:c exactly the steps a, a+c, a+2c, ... up to and including b, and no strategy means the default interval; malformed strategies and intervals below one are rejected.",
  ["inputs"], "For all strategies and step numbers.",
  "All integers and strings.",
  ["ocelot/results.py"], ["SaveStrategy"], None, "return value of the strategy")
p("S06", "Cleanup removes exactly the run directories older than a week",
  "Cleaning up deletes exactly those directories directly inside the output directory that are more than one week old, with all their contents, and never deletes newer directories, plain files, or anything outside the output directory.",
  ["inputs", "histories"], "For all contents of the output directory and all ages.",
  "Depends on ages and kinds of entries; a test cannot wait a week.",
  ["ocelot/io/cleanup.py", "ocelot/filesystem.py"], ["cleanup_data_directory"], "output directory", "directory listing and recorded deletions")
p("S07", "Collections and wrappers compose transformations without loss or reordering",
  "A collection built from functions, nested lists and collections contains exactly the flattened functions in order, calling it applies them one after another, and list operations on it behave as on that list. A wrapped per-dataset function replaces each selected dataset by the datasets it returns, in place and in order, leaves unselected datasets alone, and keeps the function's name, description and table metadata.",
  ["inputs"], "For all nested structures of functions, filters, and data lists.",
  "All nestings and operation sequences.",
  ["ocelot/collection.py", "ocelot/wrapper.py", "ocelot/transformations/utils.py"], ["Collection", "unwrap_functions", "TransformationWrapper", "single_input"], None, "return values")
p("S08", "The report reflects the log",
  "The generated report covers every transformation in the log once and in order, with its own name, description, dataset count, elapsed time and exactly the table or list elements logged between its start and its end. The report is written next to the log, together with its assets, and creating it again gives the same report.",
  ["inputs"], "For all logs that a run can produce.",
  "All logs.",
  ["ocelot/report.py"], ["HTMLReport.read_log/handle_line", "jsonize"], None, "report data and files")
p("S09", "Conversion to Brightway keeps every nonzero flow with the right sign and target",
  "Converting a linked database yields one activity per dataset with the same identity fields, whose exchanges are exactly the nonzero ones: reference products as production and inputs as technosphere with unchanged amount and linked code, by-products as technosphere with negated amount, and both kinds of environmental flows as biosphere with unchanged amount and category; only an unlinked refinery gas flow is left out. The source database is not modified.",
  ["inputs"], "For all linked databases.",
  "All exchange types, signs and zero amounts.",
  ["ocelot/io/brightway2.py"], ["Brightway2Converter"], None, "result of convert_to_brightway2")
p("S10", "Malformed databases are rejected before they are transformed",
  "A database with duplicate activity identifiers, a market without exactly one reference product, a market that consumes its own reference product other than by a hard link, or an allocatable activity violating the preconditions of its allocation method is rejected with an error, and a database without these defects is accepted unchanged. Consequential-only exchanges (property value 1) and only those are removed in the cut-off model.",
  ["inputs"], "For all databases.",
  "All positions and combinations of defects.",
  [T+"validation.py", T+"cutoff/validation.py", T+"cutoff/cleanup.py"], ["ensure_ids_are_unique", "validate_markets", "check_single_output_activity", "valid_* decorators", "remove_consequential_exchanges"], None, "acceptance or exception")
p("S11", "Extraction reads each dataset file completely and faithfully",
  "Extracting a directory yields exactly the datasets of its dataset files, each with its identity, location, type, dates and technology level, and with every exchange and parameter's amount, name, unit, type, classification, formula, variable, properties, production volume, uncertainty and hard link as in the file; missing optional data is absent or defaulted as documented. The result does not depend on the use of several processes, and a dataset file that cannot be read makes the extraction fail instead of being left out.",
  ["inputs"], "For all directories of well-formed dataset files.",
  "All combinations of optional elements; tests use a few fixture files.",
  ["ocelot/io/extract_ecospold2.py", "ocelot/io/ecospold2_meta.py"], ["extract_ecospold2_directory", "extract_exchange", "extract_uncertainty"], None, "return value")
# ----------------------------------------------------------------- corrections
p("C01", "Corrections of particular ecoinvent data change what they name, and report it",
  "Corrections made because of particular ecoinvent data change exactly the activities, exchanges and texts they name and leave every other field of every dataset as it was: listed global markets without production volume are deleted; the reference products of listed confidential activities get a production volume of one; the natural gas pipeline of the misnamed region is relocated; petroleum refineries lose their refinery gas exchanges of amount zero; each known bad formula text is replaced wherever it stands in a formula of its activity; Rest-of-World markets without volume are dropped; removing parameters deletes all formulas, variables and properties; missing mandatory properties are only reported. Each correction that has a report table logs one row for each thing it changed or found, and none other. They do the same in any order and when repeated.",
  ["inputs", "histories"], "For all databases with activities, markets and exchanges of the named and of similar names, types, places, volumes, formulas and properties.",
  "Tests call each function on one or two hand-made datasets; near-misses (other type, place, case, further formulas or properties, several at once) are not tried, and four of the functions have no test.",
  [T+"locations/markets.py", T+"locations/cleanup.py", T+"locations/rest_of_world.py", T+"parameterization/known_ecoinvent_issues.py", T+"validation.py", T+"cleanup.py", "ocelot/data_helpers.py"],
  ["delete_whitelisted_zero_pv_market_datsets", "assign_fake_pv_to_confidential_datasets", "correct_natural_gas_pipeline_location", "fix_specific_ecoinvent_issues", "fix_known_bad_formula_strings", "drop_zero_pv_row_datasets", "ensure_mandatory_properties", "deparameterize", "ensure_all_datasets_have_production_volume", "production_volume"],
  None, "returned database and log records")
p("R01", "Report tables list exactly what each transformation changed",
  "Every transformation that has a report table logs, under the logger the report is made from, one row for each thing it changed, added, removed, linked, counted or could not do, and no other row; the cells of a row are the names, places, classifications, words and amounts of just that thing as the data have them (amounts and volumes being those found before, or those the data end up with, as the column says), and each row has one cell for each column of the table. This holds for hard links dropped, redirected, freed or left unresolved; exchanges removed, zeroed, flipped, renamed, turned, linked or split; production volumes shifted, added or updated; signs flipped and amounts normalised; activities created, moved to Rest-of-World, deleted, split into one per product or switched in technology level; allocation methods counted; and formulas cut, respelt, resolved or failing.",
  ["inputs"], "For all databases these transformations accept.",
  "Tests look at no log record of these transformations; a missing, doubled or mixed-up row shows only where several things change in one database, or change more than once.",
  [T+"cutoff/cleanup.py", T+"cutoff/markets.py", T+"cutoff/wastes.py", T+"cutoff/combined.py", T+"cutoff/allocation.py", T+"activity_links.py", T+"production_volumes.py", T+"utils.py", T+"locations/linking.py", T+"locations/markets.py",
   T+"locations/market_groups.py", T+"locations/rest_of_world.py", T+"consequential/constrained_markets.py", T+"consequential/technology_levels.py", T+"parameterization/", "ocelot/report.py"],
  ["every function with a __table__"], None, "log records of logger ocelot; returned database")
p("R02", "The detailed log tells each thing done to an activity, of that activity",
  "Each transformation that writes to the detailed log writes, for everything it does that the log tells of, one message about the activity it was done to, and no other message, with the name of the function: each hard link turned into a reference (product, linked activity, its place); each hard-linked volume taken from an activity (of the linked activity, by whom and from what volume) and each volume reduced by them (what is taken, from how much); each Rest-of-World activity made (name, unit, new and original volume); each allocation method chosen; each volume divided among suppliers (product, total, how many) and each input made for a share (product, place and unit of the supplier, amount); and each input of a consumer linked to a market (product, amount, market, place), or to several (product, place of each).",
  ["inputs"], "For all databases these transformations accept.",
  "Tests look at no detailed message; one that is missing, doubled, about another activity or written after the numbers changed shows only where several things happen.",
  [T+"activity_links.py", T+"locations/linking.py", T+"locations/markets.py", T+"locations/rest_of_world.py", T+"cutoff/allocation.py", "docs/writing-transformations.rst"],
  ["actualize_activity_links", "add_hard_linked_production_volumes", "update_transforming_activity_production_volumes", "relabel_global_to_row", "label_allocation_method", "allocate_suppliers", "link_consumers_to_markets"],
  None, "log records of logger ocelot-detailed; returned database")
# ------------------------------------------------------------------ whole runs
p("E01", "A cut-off run ends with the linked single-product database it promises",
  "For a directory of well-formed dataset files, a run of the cut-off system model succeeds and its final database is the one the documented steps define: each allocatable output of each source activity (and each recyclable, for free) is one activity with one reference product of amount plus or minus one; nothing else is there and only unused Rest-of-World markets and producers without volume are missing; markets draw on the producers inside them, and market groups on markets and groups inside them, in proportion to production volumes that respect hard links; every input of every activity has the amount its allocation gives it, split over the markets and groups of its region, or linked to the activity its hard link or recycled-content name says; outputs of wastes and recyclables have become inputs that are linked like any other; every input leads to an existing activity that makes the product. The steps compose: no step undoes, repeats or misses what another relies on.",
  ["inputs"], "For all databases of transforming activities, markets and market groups with well-posed locations, hard links, by-products and formulas.",
  "Tests run single transformations on hand-made datasets; the order and interplay of some thirty transformations over a whole database is exercised by no test.",
  ["ocelot/configuration.py", "ocelot/model.py", T+"locations/__init__.py", T+"cutoff/__init__.py", T+"locations/markets.py", T+"locations/linking.py"],
  ["cutoff_config", "cutoff_config_ecoinvent_row", "link_markets_by_pv", "system_model"], "final list of datasets", "data returned by system_model")
p("E02", "A consequential run ends with the linked single-product database it promises",
  "For a directory of well-formed dataset files, a run of the consequential system model succeeds and its final database is the one the documented steps define: each reference product of each source activity is one activity whose by-products stay in it; constrained markets have turned their by-product into an input and the linked activity around; markets draw only on the producers inside them with the best technology level present, and market groups on the markets inside them, in proportion to production volumes; inputs are split over the markets and groups of their region or linked as their hard link says; amounts relate to one unit of reference product. A by-product that no activity makes as its reference product makes the run fail.",
  ["inputs"], "For all databases of transforming activities, markets and market groups with well-posed locations, technology levels, hard links and constrained markets.",
  "Tests run single transformations; no test runs the consequential configuration over a database.",
  ["ocelot/configuration.py", "ocelot/model.py", T+"consequential/__init__.py", T+"consequential/market_linking.py", T+"consequential/constrained_markets.py"],
  ["consequential_config", "link_markets_by_technology_level", "system_model"], "final list of datasets", "data returned by system_model")
p("E03", "The result of a finished run can be handed to Brightway as a closed system",
  "Whatever a run of a system model returns, converting it to Brightway succeeds for every activity and gives a closed system: the activities have distinct nonempty codes; each has exactly one production exchange, which names the activity itself, with its nonzero amount, and the identity, unit, product and amount of its dataset; its other exchanges are the nonzero inputs, negated by-products and environmental flows of the dataset; and every input leads to an activity of the same database whose product is what is taken in, in the same unit.",
  ["inputs"], "For all directories of dataset files of which a run of any system model finishes.",
  "The converter is tested on hand-made datasets only; no test converts what a system model returns, and each configuration must have done every step the converter relies on.",
  ["ocelot/io/brightway2.py", "ocelot/configuration.py", T+"locations/__init__.py", T+"consequential/__init__.py", T+"locations/linking.py"],
  ["Brightway2Converter", "add_reference_product_codes", "link_markets_by_technology_level", "link_markets_by_pv", "system_model"], "activities given to Brightway", "convert_to_brightway2 returns")
p("S12", "Validation reports exactly the datasets and files that break the format",
  "A dataset is accepted by the internal schema exactly if it has the documented form: every required field is there, no unknown one is, and each value is of the documented type or one of the documented words, down to properties, production volumes and the eight uncertainty distributions. Validating a directory names every dataset that breaks the format in the error log and no other, counts them, says so if there are none, and works on an empty directory; validating against an XSD lists exactly the .spold files that do not follow the schema. Neither changes the source files or the datasets.",
  ["inputs"], "For all values with the structure of a dataset and all directories of readable dataset files.",
  "No test validates a directory or a dataset outside the few fixtures; which of many fields and nestings is damaged, and how many datasets share a fault, is a combinatorial question.",
  ["ocelot/io/validate_internal.py", "ocelot/io/validate_ecospold2.py"],
  ["dataset_schema", "validate_directory", "validate_directory_against_xsd"], "verdict on a value; printed text and error log", "call returns")
p("S13", "The command line does exactly what was asked",
  "ocelot-cli run, validate, xsd and cleanup each lead to one call of the corresponding function with the given path, configuration or schema and options (default configuration, default XSD, report shown unless --noshow, no saving strategy or followed file unless given), wherever the options stand; --list and --help print the usage, --version the version; anything else does nothing but print the usage and exit with an error. Nothing is deleted unless the command is cleanup. An interrupted command exits with status 1, a failing one with a nonzero status, a completed one with 0.",
  ["inputs"], "For all command lines over the documented commands and options (repeated options aside).",
  "The command line has no tests.",
  ["ocelot/bin/ocelot_cli.py"],
  ["main"], "calls made, exit status, printed text", "process ends")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for d in P:
        if len(d["title"])>80: print("TOO LONG", d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
