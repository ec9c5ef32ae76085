na("N01","The alternative sorters and sort helpers sort",
"Every sorter and partial sorter that the library offers orders any slice by distance and then by index, keeps its elements, and puts the smallest ones first.",
["inputs"],"all slices","A test sorts a few slices.",["sort/sort.go","sort/partial_sort.go","sort/priority_queue.go"],[("comparison sorts","sort/")],
"Pure functions of their arguments: no concurrency, time, I/O or faults for a simulator to control; as parts of a search they run (each of them plugged in) in S02 and S03.")
na("N02","The random generators have the period and uniformity of KISS",
"The generators follow the published KISS recurrences and draw indices uniformly.",
["inputs"],"all seeds","No test looks at the numbers.",["random/kiss32random.go","random/kiss64random.go","random/gorand.go"],[("KISS","random/")],
"A statistical property of a pure recurrence; schedules and faults have no influence on it. What depends on the schedule (which worker draws from which generator) is B02.")
na("N03","The vector helpers compute what their names say",
"Dot product, norm, absolute value, euclidean and manhattan distance, rounding and intersection helpers return the mathematical value within rounding.",
["inputs"],"all finite vectors","Tests do not cover them directly.",["vector/dot.go","vector/euclidean_distance.go","vector/manhattan_distance.go","vector/get_norm.go","utils/math.go"],[("loops over elements","vector/")],
"Pure arithmetic without concurrency, time, I/O or state; euclidean, manhattan and the rounding helpers are used by no index at all. Dot product and norm are judged through the distances in S02.")
