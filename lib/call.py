INVS = ("TypeOK HooksInOrder AtMostOneExchange InvalidIsSilent PreHookFailureSendsNothing PostHooksSeeEverything "
        "NeverFalseSuccess DeclaredErrorsAreErrors UncoveredIsUnexpected FailureIsCommunication PayloadBytesKept")


def CFG(focus, known=()):
    return 'INIT TInit\nNEXT TNext\nCONSTANTS\n Focus = "%s"\n Known = {%s}\n' % (
        focus, ", ".join('"%s"' % k for k in known))


def mc_call(c, mode):
    return c.design("MC_Call", 'INIT MInit\nNEXT Next\nCONSTANT Mode = "%s"\nINVARIANTS %s\n' % (mode, INVS), tag="MC_Call_" + mode)
