import concrete
from reg import check
from rules import *

SRC = ['argparse/argument_parser.cpp', 'spec:arg.cpp']
TECH = 'path-sensitive abstract interpretation of law functions over symbolic texts'
ASSUME = ['std::string, std::vector, std::function, iterators, algorithms and string streams behave as specified (modelled, not analysed)',
          'conversions by std::stoi, stof, stod and stream extraction are taken as functions of the text that may fail']
TEXT = 'Laws of spec/arg.cpp (namespace %s): parsers over arbitrary texts, whose ensure() conditions must hold on every abstract path of declaration and parsing; no exception leaves parse(). %s'


def arg_check(pid, what, lo):
    @check(pid, SRC, TEXT % (pid.lower(), what), min=lo, assume=ASSUME, technique=TECH)
    def _(ctx, P):
        law_rule(ctx, P, pid.lower(), nonfinite=True, hook=concrete.hook)


arg_check('A01', 'Options by long and short name, value after = or as next token, in any order, repeated, without value.', 45)
arg_check('A02', 'Flags and positional arguments, alone and mixed with options; too few and too many.', 45)
arg_check('A03', 'Tokens that name nothing: unknown and empty names, dashes alone, stray texts.', 60)
arg_check('A04', 'Requests for help and version, before and after other arguments, and as values.', 12)
arg_check('A05', 'Required options given and missing.', 7)
arg_check('A06', 'Conversion to each type and to lists: accepted exactly if the text converts.', 130)
arg_check('A07', 'Validators: asked once per converted value; their verdict decides.', 35)
arg_check('A08', 'Environment variables of options and flags, valid, invalid and unset.', 20)
arg_check('A09', 'Texts stored as const char*: each lies in an object that outlives the parsing.', 10)
arg_check('A10', 'What is written: the help text names everything, the version request names program and version, errors name what is wrong, success is silent.', 80)
arg_check('A11', 'Argument objects by themselves: construction, accessors, parse, is_parsed, parse_from_env.', 180)
