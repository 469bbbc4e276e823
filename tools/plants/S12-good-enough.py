exec(open("/verif/tools/plants/S12-mean-of-hits.py").read())
id="S12-good-enough"
needs="an accuracy of the heuristic between the confidence level and 100 %"
breaks="a heuristic whose accuracy reaches the confidence level is treated as if it always succeeded: the time-to-solution is not the documented one"
edits=[(H,"    if (acc == 1)","    if (acc >= confidence_level)")]
demo=PRE+r'''
int main()
{
    const auto st = run(3, 1, 0.5);
    if (!near(st.time_to_solution, 1.5 * std::log(0.5) / std::log(0.25))) { std::printf("tts %g\n", st.time_to_solution); return 1; }
    return 0;
}
'''
