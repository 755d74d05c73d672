"""Writes /verif/properties.jsonl.  Kept as a script so ids, anchors and wording are edited in one place."""
import json, os
CORE="ramp/core/core.py"; UT="ramp/core/utils.py"; PP="ramp/post_process/post_process.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
VALID="every appliance declared within the documented parameter ranges, every day and every outcome of the random draws"
p("C01","Daily appliance profile stays inside its power envelope",
 "The profile generated for one appliance and one day has exactly 1440 finite, non-negative values. For an appliance without duty cycles each of them is 0, the 0.001 standby marker, or between k*P*(1-v) and k*P*(1+v) for some whole number k of units from 1 to the declared number, with P the power declared for that day and v the declared thermal variability. With duty cycles P is instead one of the powers declared for the duty cycles.",
 ["inputs"],VALID,
 "Tests look at one or two hand-made appliances with a fixed seed and never compare the generated values with the declared power; the envelope must hold for every declaration and every sequence of draws.",
 [CORE,UT],[("load generation","%s:Appliance.generate_load_profile"%CORE),("writing an event","%s:Appliance.update_daily_use"%CORE),("thermal variability","%s:random_variation"%UT)],
 [("daily_use","the 1440-minute profile under construction",CORE)],["Appliance.daily_use after generate_load_profile","UseCase.generate_daily_load_profiles"])
p("C02","Time of use never exceeds the day's budget",
 "The time of use drawn for a day is at least the minimum switch-on duration and at most 99% of the time offered by that day's windows, and it lies between (1-r) and (1+r) times the declared functioning time (r the declared time variability, up to rounding) unless one of those two limits applies; when the limits cannot both be met the call fails with a ValueError. The minutes in which a non-flat appliance demands power in a day never exceed the drawn time of use, and generation stops before the drawn time is reached only when no free stretch is left that could hold a minimum switch-on event.",
 ["inputs"],VALID,
 "The tests draw 100 samples for one appliance and check one bound; the drawn budget and the number of active minutes depend on every draw and every window layout.",
 [CORE],[("drawing the budget","%s:Appliance.rand_total_time_of_use"%CORE),("spending the budget","%s:Appliance.generate_load_profile"%CORE)],
 [("tot_time","minutes of switch-on events placed so far",CORE)],["Appliance.rand_total_time_of_use","Appliance.daily_use"])
p("C03","Demand only occurs inside that day's windows of use",
 "On every day each declared window of use is moved only within its declared variability: its start and its end each stay within the declared random range of the declared minute (clipped to the day), inside 0..1440, with start no later than end. Outside that day's windows the appliance's profile is exactly 0, and every minute inside them holds at least the standby marker or a demand.",
 ["inputs"],VALID,
 "No test checks where in the day the demand falls; window positions depend on the draws and on every combination of start, end and variability, including windows touching midnight.",
 [CORE],[("randomising a window","%s:Appliance.calc_rand_window"%CORE),("masking the day","%s:Appliance.generate_load_profile"%CORE)],
 [("window_i, random_var_i","declared windows and their random range",CORE)],["Appliance.calc_rand_window","Appliance.daily_use"])
p("C04","Switch-on events fit free time and never double-book a minute",
 "Every switch-on event is a run of consecutive minutes inside a single stretch of time that is still free, at least the minimum switch-on duration long (unless shortened to one run of its duty cycle) and no longer than the time of use it was asked to fit. Placing an event removes exactly its minutes from the free time and nothing else, so events of one day never overlap when that day's windows do not. If any free stretch can hold a minimum switch-on event, one is found.",
 ["inputs","histories"],"every layout of free stretches, every minimum duration and time of use, every history of previously placed events and every draw",
 "Tests call the two functions with three hand-written layouts; free-time bookkeeping is an invariant over every history of events.",
 [CORE],[("choosing an event","%s:Appliance.rand_switch_on_window"%CORE),("free-time bookkeeping","%s:Appliance.update_available_time_for_switch_on_events"%CORE)],
 [("free_spots","the stretches of time still available",CORE)],["Appliance.rand_switch_on_window","Appliance.free_spots"])
p("C05","Coincident switch-ons stay between one and all units",
 "The number of units switched on together is a whole number between 1 and the declared number of units, and is exactly the declared number when the appliance is declared fixed. Inside the peak time range it is the rounded-up sample of a normal distribution with mean mu*number and standard deviation s*mu*number, where mu and s are the calibration parameters, clipped to that range; outside it is determined by a uniform sample of the off-peak probability between 0 and (number - off-peak factor)/number.",
 ["inputs","configurations"],"every number of units, every calibration and every draw",
 "The tests fit a histogram for one appliance with 100 units; bounds must hold for each draw and each number of units, down to one.",
 [CORE,"ramp/core/constants.py"],[("coincidence","%s:Appliance.calc_coincident_switch_on"%CORE),("calibration","ramp/core/constants.py:switch_on_parameters")],
 (),["Appliance.calc_coincident_switch_on"])
p("C06","Duty cycles have the declared shape",
 "A generated duty cycle consists of a stretch at the first power followed by a stretch at the second power and nothing else, each stretch lasting the declared duration changed by at most the declared fraction and rounded down to whole minutes; a reversed cycle has the two parts swapped. The powers of each of the up to three cycles are their declared powers times a factor between 1 - thermal variability and 1 + thermal variability; a cycle that is not declared separately repeats the first one.",
 ["inputs"],"every pair of powers and durations, every variability in [0,1], one to three cycles, every draw",
 "One test runs a single duty cycle without variability and only counts jumps in the profile.",
 [UT,CORE],[("building a cycle","%s:duty_cycle"%UT),("order of the parts","%s:random_choice"%UT),("per-day cycles","%s:Appliance.assign_random_cycles"%CORE)],
 [("random_cycle1..3","the day's duty cycles",CORE)],["duty_cycle","Appliance.assign_random_cycles"])
p("C07","Each event plays the duty cycle of the window it falls in",
 "A switch-on event of an appliance with duty cycles plays the cycle whose declared cycle windows it overlaps (the lowest-numbered one if it overlaps several; undeclared cycle windows capture nothing), and an event overlapping none of them is not used. The minutes of the event receive that cycle's values in order from its start, multiplied by the number of coincident units and repeated until the event ends; in once-per-event mode the event ends with the cycle instead. No other minute of the day changes.",
 ["inputs"],"every set of cycle windows, event position and length, cycle length, number of units and both duty-cycle modes",
 "The tests never look at which cycle was played or at the order of its values.",
 [CORE,UT],[("choosing the cycle","%s:Appliance.rand_switch_on_window"%CORE),("playing it","%s:Appliance.update_daily_use"%CORE),("overlap test","%s:range_within_window"%UT)],
 [("current_duty_cycle_id","the cycle chosen for the pending event",CORE),("cw11..cw32","declared cycle windows",CORE)],["Appliance.rand_switch_on_window","Appliance.daily_use"])
p("C08","Appliances run only on the days and for the choices they are declared for",
 "An appliance's profile is entirely 0 on a day whose type (weekday or weekend) it is not declared for, on a day its user's drawn preference differs from its non-zero preference index, on a day the occasional-use draw exceeds its declared frequency, and whenever its functioning time is 0. On every other day it is simulated, so that with frequency 1, no preference index, and a matching or unrestricted day type it is never skipped.",
 ["inputs"],VALID+"; every day type and user preference",
 "Only the zero functioning time is tested, and only by comparing with the power.",
 [CORE],[("gating","%s:Appliance.generate_load_profile"%CORE)],
 [("rand_daily_pref","the preference drawn for the user on that day",CORE)],["Appliance.daily_use"])
p("C09","Flat appliances show no variability inside their windows",
 "A flat appliance demands exactly number * power of that day in every minute of that day's windows and exactly 0 in every other minute, whatever its time of use, duty cycles, thermal variability or peak time range.",
 ["inputs"],"every flat appliance in the documented ranges, every day, every draw",
 "Flat appliances only occur in notebooks that are run without looking at the profile.",
 [CORE],[("flat branch","%s:Appliance.generate_load_profile"%CORE)],(),["Appliance.daily_use"])
p("C10","A use case's profile is exactly the sum of its users' appliances",
 "For every simulated day, the use case's load equals minute by minute the sum of its user categories' loads, each category's load is the sum of as many independently generated single-user loads as it has users, and each single-user load is the sum of one freshly generated profile of every appliance of the category. Each is generated for the right day index, day type and peak time range, with one preference drawn per single user between 1 and the declared number of preferences (0 if none). The result has one row of 1440 minutes per day in calendar order, and the flat form is those rows one after the other.",
 ["inputs","configurations"],"every number of days, user categories, users per category and appliances, and every profile the appliances can produce",
 "Tests run tiny use cases and never compare the total with the parts.",
 [CORE],[("use case sum","%s:UseCase.generate_daily_load_profiles"%CORE),("category sum","%s:User.generate_aggregated_load_profile"%CORE),("single user sum","%s:User.generate_single_load_profile"%CORE)],
 (),["UseCase.generate_daily_load_profiles","User.load"])
p("C11","Parallel simulation composes the same load as the sequential one",
 "With parallel processing, every day's load is the sum of exactly one generated profile per appliance, per user of its category and per day, each generated for that day's index, day type and power and for the use case's peak time range, whatever the order in which workers return results. Preference-dependent appliances follow, as in the sequential mode, one preference drawn per single user and day and shared by all appliances of that single user.",
 ["schedules","inputs"],"every completion order of the workers, every number of days, categories, users and appliances",
 "No test compares the two modes; the completion order of a process pool is not under a test's control.",
 [CORE],[("task list and merge","%s:UseCase.generate_daily_load_profiles_parallel"%CORE),("worker","%s:single_appliance_daily_load_profile"%CORE)],(),["UseCase.generate_daily_load_profiles(parallel)"])
p("C12","Peak time range is drawn around the theoretical peak",
 "The peak time is drawn from a normal distribution centred on the (rounded) mean of the minutes at which the summed theoretical maximum profile of all users is highest, with a third of their span as standard deviation. The peak time range is the run of consecutive minutes from e before that peak time up to e after it (exclusive), where e is the rounded distance of a second normal draw with standard deviation peak_enlarge times the peak time, but at least 1; it is therefore never empty, and it is obtained for every use case, including one whose peak lasts a single minute.",
 ["inputs","configurations"],"every set of users and windows, every peak enlargement and every draw",
 "The only test of the peak time range is commented out.",
 [CORE],[("peak range","%s:UseCase.calc_peak_time_range"%CORE)],[("peak_time_range","minutes treated as on-peak",CORE)],["UseCase.calc_peak_time_range","UseCase.peak_time_range"])
p("C13","Theoretical maximum profiles depend on declarations only",
 "An appliance's theoretical maximum profile is proportional to (mean power) * (number of units) in the minutes of its declared windows and 0 elsewhere, a user category's is the sum over its appliances times its number of users, and neither changes when profiles are generated or simulations are repeated.",
 ["inputs","histories"],"every declaration and every history of earlier simulations",
 "No test reads a maximum profile, let alone after a simulation.",
 [CORE],[("appliance maximum","%s:Appliance.maximum_profile"%CORE),("user maximum","%s:User.maximum_profile"%CORE)],(),["Appliance.maximum_profile","User.maximum_profile"])
p("C14","Simulated calendar matches the requested dates and number of days",
 "After initialisation the days are consecutive calendar days: from the start date to the end date inclusive when only those are given; the requested number of days from the start date when a number is given with a start date; that number of days ending on the end date when only an end date is given; from today when no date is given. The number of days equals the length of that list and the time index has exactly 1440 minutes per day, one minute apart, starting at midnight of the first day; a second initialisation changes nothing unless forced.",
 ["configurations","inputs"],"every combination of start date, end date, requested number of days, force flag and previous initialisation",
 "Tests initialise with a number of days only.",
 [CORE],[("calendar","%s:UseCase.initialize"%CORE)],[("days, num_days, datetimeindex","the simulated calendar",CORE)],["UseCase.days","UseCase.num_days","UseCase.datetimeindex"])
p("C15","Day types and peak overlap are classified correctly",
 "A date is a weekend day exactly when it is a Saturday or Sunday, whether given as a date object or ISO text; the yearly pattern has one entry per day of the year with exactly those entries marked (starting on a Monday and lasting 365 days when no year is given). A switch-on event counts as on-peak exactly when it shares at least one minute with the peak time range, and an event overlaps a cycle window exactly when they share a minute.",
 ["inputs"],"every date, every year, every pair of ranges",
 "There is no test of these functions in the collected suite.",
 [UT],[("day type","%s:get_day_type"%UT),("yearly pattern","%s:yearly_pattern"%UT),("overlap tests","%s:within_peak_time_window, range_within_window"%UT)],(),["get_day_type","yearly_pattern","within_peak_time_window"])
p("C16","Declared windows and duty cycles are validated and stored faithfully",
 "Declaring windows fails with an InvalidWindow error exactly when a window required by the declared number of windows is missing or the declared windows together are shorter than the functioning time; otherwise every given window and its variability is stored unchanged, the first defaults to the whole day, and each window's random range is its length times the variability rounded down. Every argument given when adding an appliance, by position, by name or through the legacy method, ends up in the parameter of that name of the returned appliance, including windows and duty-cycle parameters, and is what the simulation uses.",
 ["inputs"],"every combination of given and omitted windows, cycle parameters and appliance arguments and all their values",
 "Tests cover a missing second window and two equivalent declarations; the mapping must hold for each of the 15 arguments, 4 window and 21 cycle parameters.",
 [CORE,"ramp/core/constants.py"],[("window validation","%s:Appliance.windows"%CORE),("argument mapping","%s:User.add_appliance, User.Appliance"%CORE),("duty cycle storage","%s:Appliance.specific_cycle*, Appliance.cycle_behaviour"%CORE)],(),["User.add_appliance","Appliance.windows"])
p("C17","The power used on a day is the power declared for that day",
 "A constant power applies to every simulated day however many days are simulated, and a power series given as a table or JSON text supplies its i-th value on day i. A use case whose horizon is longer than an appliance's power series is refused at initialisation with a ValueError, including for appliances added after the use case was created, so that no simulation runs with missing power values; an unsupported kind of power is refused with a ValueError.",
 ["inputs","configurations"],"every kind of power declaration, every series length and every number of days",
 "Tests use constant powers and at most a year; the horizon check has no test.",
 [CORE],[("power declaration","%s:Appliance.__init__"%CORE),("horizon check","%s:Appliance.check_power_values, UseCase.initialize"%CORE)],[("power","one value per day",CORE)],["Appliance.power","UseCase.initialize"])
p("C18","A saved model reloads to the same model",
 "Saving a use case or user and loading the file yields the same users in the same order (name, number of users, preferences) with the same appliances in the same order, each with the same value of every appliance parameter: power (constant or full daily series, whatever its values), windows, random variability, duty cycles and cycle windows included.",
 ["inputs"],"every model whose parameters are in the documented ranges, every parameter of every appliance",
 "The conversion test compares with an equality that ignores the appliances, for three files.",
 [CORE,UT,"ramp/core/constants.py"],[("saving","%s:Appliance.save, User.save, UseCase.save"%CORE),("loading","%s:UseCase.load"%CORE),("parsing","%s:read_input_file"%UT)],(),["UseCase.save","UseCase.load"])
p("C19","Spreadsheet input is read as documented",
 "A blank cell of an optional parameter means the parameter's default, and every filled cell becomes the value of the parameter its column names. A power series given as JSON text or as a one- or two-column cell range is accepted only with exactly 366 values and yields those values in order (the second column when timestamps are given); anything else is refused with a ValueError, as is a user name whose rows disagree on the number of users or the preference.",
 ["inputs"],"every spreadsheet in the documented layout, every blank or filled cell",
 "Tests load complete sheets only; blank cells and series ranges are not covered.",
 [CORE,UT],[("parsing","%s:read_input_file"%UT),("building the model","%s:UseCase.load"%CORE)],(),["UseCase.load"])
p("C20","Adding users and appliances keeps the model's structure",
 "Adding an appliance to a user makes it appear exactly once in that user's list after the existing ones, skips one equal to an already listed appliance, names an unnamed one after its position, and refuses anything that is not an appliance; adding users to a use case keeps their order and links each to that use case, and refuses anything that is not a user. Two appliances are equal exactly when every declared parameter is equal, for any combination of declarations including power series of different lengths.",
 ["inputs","histories"],"every sequence of additions and every pair of appliances",
 "Tests add two appliances; equality is tested on appliances that differ in the name only.",
 [CORE],[("registration","%s:User._add_appliance_instance, UseCase.add_user, UseCase.collect_appliances_from_users"%CORE),("equality","%s:Appliance.__eq__"%CORE)],(),["User.App_list","UseCase.users","Appliance.__eq__"])
p("C21","The same random seed reproduces the same profiles",
 "When a use case is created with a random seed, including 0, the generator is seeded with it before any random number that can influence its results is drawn, so that rebuilding the same model with the same seed gives the same peak time range and the same sequential profiles, with or without dates given at creation. The simulation draws randomness from no other source than that generator.",
 ["histories","inputs"],"every model, seed and earlier use of the generator",
 "A notebook runs two use cases with one seed without comparing them.",
 [CORE,UT],[("seeding","%s:UseCase.__init__"%CORE)],(),["UseCase.generate_daily_load_profiles","UseCase.peak_time_range"])
p("C22","The command line runs each input file once with its own options",
 "The ramp command simulates every given input file exactly once, in order, each with the output path and the number of days given for it (a single value applies to all; a full date range takes precedence over a number of days), and with the date range implied by the options: a lone start date runs to 31 December, a lone end date from 1 January of its year, -y from 1 January of the first to 31 December of the last year; options that contradict each other or do not match in number are refused with a ValueError before anything is simulated. Given one year and a folder of twelve monthly files it simulates each month of that year with its file, sorted by number, and joins the months into one profile of that year's minutes.",
 ["configurations","inputs"],"every combination of options, dates and numbers of files",
 "Five tests run single combinations; the mapping from options to runs is a function of all of them.",
 ["ramp/cli.py","ramp/ramp_run.py"],[("dispatch","ramp/cli.py:main"),("one run","ramp/ramp_run.py:run_usecase")],(),["run_usecase calls made by main","yearly_profile_min_resolution.csv"])
p("C23","Post-processing and export preserve the simulated loads",
 "Formatting a list of daily profiles returns their minute-by-minute average, the same profiles in kW (divided by 1000) in the same order, and one series that is all daily profiles one after the other; the inputs are left unchanged. Exporting writes exactly that series, to the given output path when there is one, otherwise to the results folder under a name derived from the input file or the given number.",
 ["inputs"],"every number of profiles and all their values",
 "The suite runs the export without reading what it wrote.",
 [PP],[("formatting","%s:Profile_formatting"%PP),("export","%s:export_series"%PP)],(),["Profile_formatting","export_series"])
p("C24","Plot data operations compute what they name",
 "On the data of a result object, mean and sum are taken across the cases at each time step, error is the difference relative to the validation column in percent (0 where undefined), peak returns for each case all time steps where its maximum occurs, and resampling applies the requested rule after dividing by the conversion factor. A case is only added when its time index equals the existing one, results are loadable from the csv and xlsx files they were saved to, and none of these operations except the in-place ones changes the original data.",
 ["inputs"],"every table of results",
 "Only notebooks use the class; nothing compares its numbers.",
 [PP],[("result table","%s:Plot"%PP)],(),["Plot.mean","Plot.sum","Plot.error","Plot.peak","Plot.resample","Plot.from_file"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),max(len(x["title"]) for x in P))
