---- MODULE Locks_TTrace_1795155065 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, Locks

_expression ==
    LET Locks_TEExpression == INSTANCE Locks_TEExpression
    IN Locks_TEExpression!expression
----

_trace ==
    LET Locks_TETrace == INSTANCE Locks_TETrace
    IN Locks_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        pc = (<<1, 3, 1>>)
        /\
        readers = ([tr |-> <<0, 1, 0>>, pl |-> <<0, 0, 0>>])
        /\
        kind = (<<"read", "nested", "write">>)
        /\
        writer = ([tr |-> 3, pl |-> 0])
        /\
        inside = ([tr |-> FALSE, pl |-> FALSE])
    )
----

_init ==
    /\ readers = _TETrace[1].readers
    /\ writer = _TETrace[1].writer
    /\ pc = _TETrace[1].pc
    /\ kind = _TETrace[1].kind
    /\ inside = _TETrace[1].inside
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ readers  = _TETrace[i].readers
        /\ readers' = _TETrace[j].readers
        /\ writer  = _TETrace[i].writer
        /\ writer' = _TETrace[j].writer
        /\ pc  = _TETrace[i].pc
        /\ pc' = _TETrace[j].pc
        /\ kind  = _TETrace[i].kind
        /\ kind' = _TETrace[j].kind
        /\ inside  = _TETrace[i].inside
        /\ inside' = _TETrace[j].inside

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Locks_TTrace_1795155065.json", _TETrace)

=============================================================================

 Note that you can extract this module `Locks_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Locks_TEExpression.tla` file takes precedence 
  over the module `Locks_TEExpression` below).

---- MODULE Locks_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, Locks

expression == 
    [
        \* To hide variables of the `Locks` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        readers |-> readers
        ,writer |-> writer
        ,pc |-> pc
        ,kind |-> kind
        ,inside |-> inside
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_readersUnchanged |-> readers = readers'
        
        \* Format the `readers` variable as Json value.
        \* ,_readersJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(readers)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_readersModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].readers # _TETrace[s-1].readers
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Locks_TETrace ----
\*EXTENDS IOUtils, TLC, Locks
\*
\*trace == IODeserialize("Locks_TTrace_1795155065.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Locks_TETrace ----
EXTENDS TLC, Locks

trace == 
    <<
    ([pc |-> <<0, 0, 0>>,readers |-> [tr |-> <<0, 0, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 0, 0>>,readers |-> [tr |-> <<0, 0, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 1, 0>>,readers |-> [tr |-> <<0, 0, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 2, 0>>,readers |-> [tr |-> <<0, 1, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 3, 0>>,readers |-> [tr |-> <<0, 1, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 3, 1>>,readers |-> [tr |-> <<0, 1, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 0, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]]),
    ([pc |-> <<1, 3, 1>>,readers |-> [tr |-> <<0, 1, 0>>, pl |-> <<0, 0, 0>>],kind |-> <<"read", "nested", "write">>,writer |-> [tr |-> 3, pl |-> 0],inside |-> [tr |-> FALSE, pl |-> FALSE]])
    >>
----


=============================================================================

---- CONFIG Locks_TTrace_1795155065 ----
CONSTANTS
    Kinds = { "read" , "nested" , "write" }

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 06:11:07 UTC 2026