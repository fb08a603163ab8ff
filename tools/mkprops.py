"""Writes /verif/properties.jsonl from the table below (kept here so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
EQ='mtoolkit/eqcatalog.py'; JO='mtoolkit/jobs.py'; WF='mtoolkit/workflow.py'; CF='mtoolkit/catalog_filter.py'
SM='mtoolkit/source_model.py'; CU='mtoolkit/scientific/catalogue_utilities.py'; CO='mtoolkit/scientific/completeness.py'
DE='mtoolkit/scientific/declustering.py'; RE='mtoolkit/scientific/recurrence.py'; MM='mtoolkit/scientific/maximum_magnitude.py'
FC='mtoolkit/scientific/fault_calculator.py'; SF='mtoolkit/geo/simple_fault.py'; TR='mtoolkit/geo/tectonic_region.py'
NR='nrml/reader.py'; NW='nrml/writer.py'; NX='nrml/nrml_xml.py'

prop('C01','Compulsory catalogue values are valid or reading stops at that line',
 'Every event that reading an earthquake catalogue returns has a positive integer event id and identifier, a year between -10000 and the current year, a month in 1..12, a day in 1..29 for February and 1..31 otherwise, an hour in 0..23, a minute in 0..59, a longitude within [-180, 180], a latitude within [-90, 90], a positive depth and a numeric magnitude. A data line in which one of these values is missing, cannot be converted or is out of range stops the reading with a validation error naming such a field and the line number of that line (the first data line is line 2), and a line in which all of them are valid is never rejected.',
 ['inputs'],'every text of the 25 cells of every data line, at every position of a catalogue of any length',
 'The tests check each range check on a handful of hand-written values; they never combine conversion failure, range failure and line position, and sample no February day or float conversion failure.',
 [EQ],[('conversion of each cell','EqEntryReader.convert_values'),('per-field checks','EqEntryReader.check_*'),('row loop and error','EqEntryReader.read')],
 [('row under validation','one dictionary of 25 cells','EqEntryReader.read')],['return value / exception of EqEntryReader.read and read_eq_catalog'])
prop('C02','Optional catalogue values are kept exactly or blanked, never altered',
 'An optional numeric value that can be converted and is acceptable is returned as that number, and otherwise it is returned as an empty string: seconds are acceptable in [0, 60), uncertainties and error ellipse axes when not negative, and the magnitude uncertainty is returned as 0.0 instead of an empty string. The two ellipse axes and the ellipse strike are all blank unless the strike is within [0, 360] and the minor axis does not exceed the major axis. An unacceptable optional value never stops the reading, and it never changes any other field.',
 ['inputs'],'every combination of the optional cells of a line, given valid compulsory cells',
 'The tests call single checks with two or three values each; the interaction of the three ellipse fields and of blanking with later checks is not sampled.',
 [EQ],[('conversion of optional cells','EqEntryReader.convert_values'),('blanking checks','EqEntryReader.check_positive_value, check_second, check_epicentre_error_location, check_sigma_mw')],
 (),['entries returned by EqEntryReader'])
prop('C03','A catalogue is read completely, in order, column by column',
 'A catalogue is accepted only when its first line lists exactly the 25 standard column names in the standard order (surrounding blanks ignored), and is otherwise rejected as malformed. Reading an accepted catalogue of valid lines returns exactly one event per data line, in file order, in which every one of the 25 columns is filled from the cell at that column\'s position. Reading one catalogue never influences what reading another one returns.',
 ['inputs','histories'],'every header line, every number of data lines, any order of reading several catalogues',
 'The tests read two fixed files and one fixed wrong header.',
 [EQ,JO],[('header check','EqEntryReader.validate_csv_catalog'),('row loop','EqEntryReader.read, read_eq_catalog'),('job','jobs.read_eq_catalog')],(),['EqEntryReader constructor and read_eq_catalog'])
prop('C04','The preprocessed catalogue file holds exactly the selected events',
 'After the preprocessing, the exported catalogue has the standard header followed by exactly those events of the read catalogue which were neither removed by declustering nor are incomplete, one line each, in their original order and with all their values in the right columns. Reading the exported file back returns the same events. The events held in memory are not changed by the export.',
 ['inputs'],'every catalogue, every declustering outcome and every completeness table',
 'The tests export one fixed catalogue with one fixed selection.',
 [JO,EQ],[('selection','jobs.create_selected_eq_vector'),('export','jobs.store_preprocessed_catalog'),('csv writer','EqEntryWriter.write_rows')],
 [('selection vector','0 for every event to keep','context.selected_eq_vector')],['the csv file named by pprocessing_result_file'])
prop('C05','The pipelines contain exactly the configured steps, in order',
 'For every configuration, preprocessing consists of reading the catalogue, reading the source model (or building the default one when no file is configured), building the event matrix and the default values, followed by the configured preprocessing steps in the configured order, and then, only when a result file is configured, by the selection, export and completeness table storage; without preprocessing steps it only loads the stored completeness table when one is configured. Processing consists of exactly the configured processing steps in the configured order. A step name which is not known is rejected with an error naming it, and building pipelines never modifies the configuration nor pipelines built before.',
 ['configurations','histories'],'every configuration: any list of step names of any length, any combination of configured files, any number of pipelines built in one process',
 'The tests build three fixed configurations.',
 [WF],[('preprocessing','PreprocessingBuilder.build'),('processing','ProcessingBuilder.build'),('name table','PipeLineBuilder.append_jobs, map_job_callable'),('queue','PipeLine.add_job')],(),['jobs of the returned pipeline'])
prop('C06','The workflow runs preprocessing once, then processing once per source',
 'Running a workflow executes every preprocessing step exactly once, in order, before anything else. If processing is enabled, then for each source of the source model, in order, all the processing steps are executed exactly once, in order, on that source together with the events selected for that source from the working catalogue; if processing is disabled none of them is executed. The results of one source never reach another source.',
 ['inputs','configurations'],'every number of steps and of sources, every filter, processing enabled or not',
 'The tests run one mocked workflow with one source.',
 [WF,CF],[('sequencing','Workflow.start'),('queue execution','PipeLine.run'),('per-source iteration','CatalogFilter.filter_eqs')],
 [('current source and its events','what the steps of this iteration see','context.cur_sm, context.current_filtered_eq')],['calls received by the jobs'])
prop('C07','A source receives exactly the events inside its polygon, in order',
 'Filtering by source geometry returns, for a valid polygon, exactly the catalogue rows whose (longitude, latitude) point lies inside the polygon of that source, unchanged and in catalogue order, and pairs each source with its own selection, in source order. An invalid polygon is rejected with an error instead of being used. Without a geometric filter every source receives the complete catalogue, and the catalogue itself is never modified.',
 ['inputs'],'every catalogue, every sequence of sources, every polygon',
 'The tests filter a few fixed points with one fixed polygon.',
 [CF],[('geometric filter','SourceModelCatalogFilter.filter_eqs'),('polygon','_extract_polygon, _check_polygon'),('null filter','NullCatalogFilter.filter_eqs'),('pairing','CatalogFilter.filter_eqs')],(),['return values of the filters'])
prop('C08','Gardner-Knopoff declustering partitions the catalogue soundly',
 'Gardner-Knopoff declustering retains all the values of every event with removal flag 0, in original order, and drops every other event; each cluster has exactly one retained event, its main shock, and every removed event lies within the distance window and the time window (the foreshock one before it, flag -1, or the aftershock one, flag 1) of the main shock of its own cluster. No retained event lies within the distance and time windows of another retained event of strictly larger magnitude, and an event outside every cluster has cluster number 0 and is retained. The given catalogue is not modified.',
 ['inputs'],'every catalogue of finite values (any size, ties, duplicates, any order), every window definition and every foreshock proportion >= 0',
 'The tests decluster a few catalogues of up to some hundreds of events with fixed expected vectors, so they sample only a few cluster shapes.',
 [DE,CU],[('algorithm','gardner_knopoff_decluster'),('distances','haversine'),('windows','Window.calc'),('dates','decimal_year')],
 [('cluster numbers and removal flags','one per event','vcl, flagvector')],['returned cluster vector, purged catalogue, flag vector'])
prop('C09','Afteran declustering partitions the catalogue soundly',
 'Afteran declustering retains all the values of every event with removal flag 0, in original order, and drops every other event; each cluster has exactly one retained event, its main shock, which no event of the cluster exceeds in magnitude, and every event of the cluster lies within the distance window of that main shock. Every removed event is linked to its main shock through a chain of cluster events none of whose steps is longer than the moving time window, backwards for foreshocks (flag -1) and forwards for aftershocks (flag 1). No event outside every cluster lies within the distance window and within one moving time window, before or after, of a larger event outside every cluster. An event outside every cluster has cluster number 0 and is retained, and the given catalogue is not modified.',
 ['inputs'],'every catalogue of finite values (any size, ties, any order), every window definition and every moving window length > 0',
 'The tests decluster three fixed catalogues.',
 [DE,CU],[('algorithm','afteran_decluster'),('moving window','_find_aftershocks, _find_foreshocks'),('distances','haversine')],
 [('cluster numbers and removal flags','one per event','vcl, flagvector')],['returned cluster vector, purged catalogue, flag vector'])
prop('C10','Declustering windows follow the published formulas for every magnitude',
 'For every vector of positive magnitudes the distance and time windows of Gardner and Knopoff, of Gruenthal and of Uhrhammer are elementwise the published functions of the magnitude: Gardner-Knopoff 10^(0.1238M+0.983) km and 10^(0.5409M-0.547) days below M 6.5, 10^(0.032M+2.7389) days from 6.5; Gruenthal exp(1.77+sqrt(0.037+1.02M)) km and |exp(-3.95+sqrt(0.62+17.32M))| days below 6.5, 10^(2.8+0.024M) days from 6.5; Uhrhammer exp(-1.024+0.804M) km and a time of exp(-2.87+1.235M/365) years, with days turned into years by 365. Every window is positive, each distance window grows strictly with the magnitude, and the time windows do not decrease with the magnitude on each side of 6.5. The magnitudes passed in are not modified.',
 ['inputs'],'every magnitude vector, of any length, with every element in any position relative to 6.5',
 'The doctests evaluate three magnitudes per definition.',
 [DE],[('Gardner-Knopoff','GardnerKnopoffWindow.calc'),('Gruenthal','GruenthalWindow.calc'),('Uhrhammer','UhrhammerWindow.calc')],(),['returned arrays'])
prop('C11','Epicentral distances are great-circle distances for all location pairs',
 'The distance table between two sets of locations (each given as vectors or as a single location) has one row per location of the first set and one column per location of the second set, and each entry is the haversine great-circle distance between that pair in km, for the given earth radius, with the coordinates taken as degrees unless stated to be radians. All distances are non negative and at most half the circumference, the distance of a location to itself is 0, and exchanging the two locations of a pair does not change it. The coordinate vectors passed in are not modified.',
 ['inputs'],'every pair of coordinate vectors of any lengths or scalars, both units, every radius',
 'The tests compare one fixed vector.',
 [CU],[('formula','haversine')],(),['returned array'])
prop('C12','Calendar dates are converted without shifting any day',
 'The decimal year of a date is its year plus the number of days of a 365-day year that precede it (days before the month plus day minus one) divided by 365, for each element of the date vectors. It is strictly increasing in the date within a non-leap year and stays within that year. The Julian date of a Gregorian date and time is the astronomical Julian date, so that consecutive calendar days (across months, years, leap years and centuries) differ by exactly one and the time of day adds its fraction of a day.',
 ['inputs'],'every valid date vector of any length, and every Gregorian date and time from year 1',
 'The tests evaluate a few dates.',
 [CU],[('decimal year','decimal_year'),('Julian date','greg2julian')],(),['returned values'])
prop('C13','An event is selected iff it is not declustered and not incomplete',
 'The selection vector has one entry per event, which is 1 (not selected) exactly when the event was flagged by declustering or there is a completeness category with a later year than the event and a higher magnitude than the event, and is 0 otherwise. The result does not depend on the order of the completeness categories, and adding a category never selects more events. None of the inputs is modified.',
 ['inputs'],'every catalogue, completeness table and flag vector of any length',
 'The tests check one fixed catalogue.',
 [CO],[('selection','selected_eq_flag_vector')],(),['returned vector'])
prop('C14','The Stepp completeness table follows from the event counts',
 'The completeness table has one row per magnitude bin of the requested width, starting from the smallest magnitude rounded down to one decimal and covering the largest one, with the lower edge of the bin as magnitude and as year the last year of the catalogue minus a number of years that is one of the time steps. That duration is the last time step at which the slope of the standard deviation of the event rate (the events of the bin counted from the end of the catalogue over each time step) departs from the Poisson slope by a change larger than the sensitivity, or the duration of the preceding bin when there is none. With the increment lock the years never increase with the magnitude, and the input vectors are not modified.',
 ['inputs','configurations'],'every catalogue spanning at least three time steps and one magnitude bin, every bin width, step, sensitivity and lock',
 'The tests compare the tables of three fixed catalogues.',
 [CO],[('counts, slopes and selection','stepp_analysis')],(),['returned table'])
prop('C15','Recurrence statistics count each event once; b-value is Aki/Bender',
 'The recurrence table has one row per magnitude bin of the requested width from the smallest magnitude rounded down to one decimal; each row holds the bin centre, the number of events in the bin, the number of events in that and all higher bins, and both numbers divided by the length in years of the catalogue, so that every event is counted in exactly one bin, the cumulative numbers never increase with magnitude and the first one is the number of events. The b-value is log10(e) / (mean magnitude - minimum magnitude + half bin) over the bins not below the completeness magnitude, with Bender\'s standard error, and bins below it have no influence. The inputs are not modified.',
 ['inputs'],'every magnitude and year vector, every bin width > 0 and every completeness magnitude',
 'The tests compare one fixed table.',
 [RE],[('table','recurrence_table'),('b-value','b_max_likelihood')],(),['returned table and values'])
prop('C16','Time-varying b-value averages the periods weighted by their events',
 'The maximum likelihood recurrence of a catalogue with a completeness table is the average over the groups of consecutive table rows with the same year of the parameters of each period (b-value, its error, rate above the reference magnitude, its error), each weighted by its share of the events. The events of a period are exactly those not before its year and with magnitude not below the smallest completeness magnitude of its group, within the tolerance of 1e-5. The analysis uses Weichert\'s method when that is requested and this one otherwise, passing the table columns, the bin widths and the reference magnitude on in the right roles.',
 ['inputs','configurations'],'every catalogue, completeness table sorted by year, bin width and reference magnitude',
 'The tests compare one fixed catalogue and table.',
 [RE],[('periods and weights','b_maxlike_time'),('dispatch','recurrence_analysis')],(),['returned parameters'])
prop('C17','Weichert preparation counts exactly the complete events per bin',
 'For each magnitude bin the preparation returns its centre, the length of the observation period (last year minus the year of the last completeness row whose magnitude does not exceed the lower bin edge by 0.001 or more, or of the last row if there is none, plus one) and the number of events of the bin in all time intervals, excluding the time and magnitude cells which start before the year and below the magnitude of a same completeness row. No event is counted in two bins, and every event in a cell that is complete is counted. Completeness columns of different length are rejected with an error, and the inputs are not modified.',
 ['inputs'],'every catalogue, completeness table and bin widths',
 'The tests compare one fixed catalogue.',
 [RE],[('cells, clearing and periods','weichert_prep')],(),['returned arrays'])
prop('C18','The Weichert estimate solves the maximum likelihood equation',
 'When the estimation ends, the last step changed beta by no more than the tolerance and the returned b-value is that beta / ln 10, where the step is the Newton step of Weichert\'s likelihood equation on the counts and observation periods given. The error of b is sqrt(-1/second derivative) / ln 10, and the rate is the total count scaled by the ratio of sum exp(-beta m) to sum t exp(-beta m), brought to the reference magnitude by exp(-beta (reference - lowest edge)) with the rate divided by the square root of the count as its error; a reference magnitude of 0 gives the rate at the lowest edge itself. The inputs are not modified.',
 ['inputs'],'every observation period vector, count vector and reference magnitude for which the iteration ends',
 'The tests compare one fixed data set.',
 [RE],[('Newton iteration','weichert')],(),['returned parameters'])
prop('C19','A processing result reaches exactly its own field of its own source',
 'The recurrence step stores the computed a- and b-value and the configured reference magnitude as a value, b value and minimum magnitude of the source being processed and the two errors beside them, and the maximum magnitude step stores the computed maximum magnitude and its error; both are computed from the year, magnitude and magnitude error columns of the events of that source with the configured parameters in their right roles. Every other attribute of that source, every other source, the events and the configuration stay unchanged. A source without events is left as it was and does not stop the workflow.',
 ['inputs','configurations'],'every source, every set of events (also empty), every configuration and every result',
 'The tests run the steps once with one source and mocked algorithms.',
 [JO,MM],[('recurrence step','jobs.recurrence'),('maximum magnitude step','jobs.maximum_magnitude'),('method selection','maximum_magnitude_analysis')],
 [('source being processed','the only object the steps update','context.cur_sm')],['context.cur_sm after the step; arguments received by the algorithms'])
prop('C20','The non-parametric maximum magnitude extends the observed maximum',
 'The non-parametric Gaussian estimate is the observed maximum (given, or the largest magnitude) plus the last computed integral of the kernel distribution over exponentially spaced magnitudes from the smallest of the largest requested number of events up to the current estimate; it is the current one when two successive estimates differ by no more than the tolerance or the maximum number of iterations is exceeded, so the estimation always ends. Its error is the square root of the squared uncertainty of the observed maximum plus the squared integral. The integral is the trapezoidal sum, over the sample points, of the normalised kernel distribution raised to the number of events, and the inputs are not modified.',
 ['inputs'],'every magnitude vector, uncertainty vector, number of events, samples, tolerance and iteration limit',
 'The tests compare one fixed data set.',
 [MM],[('iteration','kijko_nonparametric_gauss'),('integral','kijko_npg_intfunc_simps')],(),['returned estimate and error'])
prop('C21','The kernel helpers are what they claim on their whole domain',
 'The approximate normal distribution function is, for every argument, mean and standard deviation, the Hastings approximation, lies within [0, 1] and within 0.0003 of the exact distribution, and is elementwise in its argument. The sample points are the requested number of points whose exponentials are equally spaced from the lower to the upper bound, both included. The smoothing factor is Silverman\'s 0.9 min(standard deviation, inter-quartile range / 1.34) n^(-1/5), rounded to two decimals, and no input is modified.',
 ['inputs'],'every argument vector of any length, including both tails and the boundaries -5, 0 and 5; every bound pair and number of points; every magnitude vector',
 'The tests evaluate 121 arguments within [-3, 3] and one set of points.',
 [MM],[('distribution','gauss_cdf_hastings'),('points','exp_spaced_points'),('smoothing','h_smooth')],(),['returned values'])
prop('C22','Cumulative moment magnitude uses every event exactly once',
 'The cumulative moment estimate is (2/3)(log10(D) - 9.05), where D is the sum of the absolute largest and smallest deviation of the cumulative yearly moment 10^(9.05+1.5M) from the cumulative mean yearly moment, over all the years from the first to the last, years without events included, and every event contributing to exactly its own year. The bootstrap estimate is the mean and the sample standard deviation of the requested number of estimates with magnitudes perturbed by their own uncertainty times independent standard normal deviates, and is reproducible for a given seed. The inputs are not modified.',
 ['inputs'],'every catalogue with integer years, every uncertainty vector, number of samples and seed',
 'The tests compare one fixed data set.',
 [MM],[('moments','cumulative_moment'),('bootstrap','cum_mo_uncertainty')],(),['returned values'])
prop('C23','Source models survive writing and reading back',
 'Writing area sources produces one document with one element per source, in order, which validates against the supplied schema, and reading it back yields sources equal to those written in every attribute (identifiers, name, tectonic region, boundary points in order, recurrence parameters, strike, dip and rake, depth distribution, hypocentral depth). Reading a document yields exactly one source per area source element, in document order, with each attribute taken from its own element. Writing does not modify the sources.',
 ['inputs'],'every non-empty sequence of area sources of one source model with finite values, any number of boundary points and of depth values',
 'The tests compare one fixed document with one fixed object.',
 [NR,NW,NX,SM,JO],[('writer','AreaSourceWriter.serialize, _write_*'),('reader','NRMLReader.read, _parse_*'),('names','nrml_xml')],(),['the nrml file; sources yielded by the reader'])
prop('C24','Simple fault geometry: valid parameters only, exact dimensions',
 'A simple fault is constructed exactly when it has at least two trace points, all within longitude [-180, 180] and latitude [-90, 90], depths with 0 <= upper < lower, and a dip in (0, 90], and is otherwise rejected with an error. Its length is the sum of the great-circle distances (radius 6371 km) between all consecutive trace points, its width the depth difference divided by the sine of the dip, and its area the product of both. Width and area are never negative and the trace passed in is not modified.',
 ['inputs'],'every trace of any number of points, all depths and dips, including the boundary values',
 'The tests use two traces and one invalid value per parameter.',
 [SF],[('validation','SimpleFaultGeo.__init__, ensure'),('dimensions','get_length, get_width, get_area')],(),['constructor, length, width and area'])
prop('C25','Tectonic regions hold only consistent, weighted parameters',
 'A tectonic region is constructed exactly when each of its three parameter lists has as many weights as values, every scaling relation is supported, every shear modulus and displacement length ratio is greater than zero and each list of weights sums to one up to rounding, and otherwise construction is rejected with an error. Creating a region by name yields the region type of that name with the documented default for each parameter which is not given and the given value otherwise, and an unknown name is rejected. Two regions are equal exactly when identifier and all three parameters are equal, and creating regions never changes the defaults of regions created later.',
 ['inputs','histories'],'every parameter list of any length, every name and every subset of given parameters, any number of creations',
 'The tests construct a few regions and one invalid value per parameter.',
 [TR],[('validation','TectonicRegion.check_*'),('defaults','the region classes'),('builder','TectonicRegionBuilder')],(),['constructor, accessors, comparison'])
prop('C26','Fault rates are the Anderson-Luco increments of adjacent magnitude bins',
 'The magnitude frequency distribution of a fault gives, for as many consecutive bins of the requested width as are needed to get from the minimum to the maximum magnitude, the first one centred on the minimum, the difference between the Anderson-Luco cumulative rates of the lower and the upper edge of the bin, computed from the slip rate reduced by its aseismic part, the area and width of the fault, its shear modulus and displacement length ratio, the b-value and the moment scaling. A non positive slip or an aseismic proportion outside [0, 1) is rejected. The maximum magnitude is the given one, also when it is given together with a rake, and only when it is absent it is derived from the area of the fault and the rake.',
 ['inputs'],'every slip, proportion, region, geometry, b-value and bin width > 0',
 'The module needs a library which is not installed, so its tests cannot run here at all.',
 [FC],[('distribution','get_mfd'),('cumulative rate','_cumulative_value')],(),['returned list of rates'])
prop('C27','Each preprocessing step gets the right data and stores its own results',
 'The event matrix has one row per read event, in order, holding its year, month, day, longitude, latitude, magnitude and magnitude error; the initial working catalogue equals it, the initial removal flags are all zero, and the initial completeness table is the single pair of smallest year and smallest magnitude. Each declustering or completeness step passes the event data and its own configured parameters in the right roles and stores the results as cluster numbers, working catalogue and removal flags, or as completeness table, changing nothing else. The selection step combines the full event matrix, the completeness table and the removal flags.',
 ['inputs','configurations'],'every non-empty catalogue, every configuration of the steps and every result of the algorithms',
 'The tests run each step once on fixed values with mocked algorithms.',
 [JO],[('matrix and defaults','jobs.create_catalog_matrix, create_default_values'),('declustering steps','jobs.gardner_knopoff, jobs.afteran'),('completeness step','jobs.stepp'),('selection step','jobs.create_selected_eq_vector')],
 [('shared data of the steps','matrix, working catalogue, flags, table','context')],['the context after each step; arguments received by the algorithms'])
prop('C28','The completeness table is stored and retrieved unchanged',
 'Storing the completeness table and retrieving it from the same file yields a table with the same number of rows, in the same order, and two columns, with every value equal to the stored one to five decimals, also for a table of a single row. Retrieving takes the table only from the configured file and replaces the one in memory. Storing does not modify the table in memory.',
 ['inputs'],'every completeness table with at least one row of finite values',
 'The tests store and retrieve one fixed table.',
 [JO],[('storage','jobs.store_completeness_table'),('retrieval','jobs.retrieve_completeness_table')],(),['the table in the context and the csv file'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P: assert len(p['title'])<=80,p['id']
