#!/usr/bin/env python3
"""Writes known_findings.txt: the fix commits in /repo, and the findings recorded below"""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# start of commit subject after "fix: " -> property
FIXED = [
    ("MirroredCoil places the lower", "C04"),
    ("MultiCoil does not modify", "C30"),
    ("MultiCoil at a single point", "C02"),
    ("PreCalcCoil includes number of turns", "C02"),
    ("FilamentCoil without a shape", "C30"),
    ("moving a ShapedCoil", "C30"),
    ("FilamentCoil can be written", "C19"),
    ("MultiCoil can be written", "C19"),
    ("reading a Circuit whose first", "C19"),
    ("flux on the grid is right when coils share", "C03"),
    ("polygon intersection includes", "C24"),
    ("triangulation of concave", "C24"),
    ("FilamentCoil can be filled", "C02"),
    ("FilamentCoil given an outline", "C02"),
    ("control system handles coils with the same", "C05"),
    ("coil current limits and maximum", "C05"),
    ("ConstrainPsi2D accepts a single", "C06"),
    ("fitting 2D flux within current limits", "C06"),
    ("fitting 2D flux starting from zero", "C06"),
    ("iterative solver doesn't modify", "C08"),
    ("find_critical doesn't fail if", "C10"),
    ("find_critical finds O- and X-points half way", "C10"),
    ("ConstrainBetapIp includes the pressure", "C12"),
    ("f = R*Bt in the plasma has the sign", "C13"),
    ("ConstrainPaxisIp and ConstrainBetapIp use the boundary", "C12"),
    ("flux at the limiter points", "C15"),
    ("limited plasmas with negative", "C15"),
    ("core of a limited plasma", "C15"),
    ("limiter points cover", "C15"),
    ("limiter points follow", "C15"),
    ("find_separatrix works without", "C16"),
    ("safety factor of limited", "C17"),
    ("safety factor can be calculated for a list", "C17"),
    ("plasma is diverted if none", "C15"),
    ("shafranovShift uses", "C16"),
    ("points on the separatrix close", "C16"),
    ("toroidal flux is measured", "C17"),
    ("order of the operators is stored", "C19"),
    ("GEQDSK files can be read with recent", "C21"),
    ("profiles in GEQDSK files are written", "C20"),
    ("GEQDSK files can be read into a machine", "C21"),
    ("GEQDSK files can be read onto", "C21"),
    ("GEQDSK data read with recent", "C20"),
    ("O- and X-points are found when a GEQDSK", "C21"),
    ("RogowskiSensor measures the current in all", "C22"),
    ("RogowskiSensor measures the current in Multi", "C22"),
    ("sensors which are off", "C22"),
    ("measurements can be taken", "C22"),
    ("force on a coil without", "C23"),
    ("forces on coils in circuits", "C23"),
    ("newDomain keeps the resolution in Z", "C29"),
    ("coarsen keeps the flux on the edges", "C29"),
    ("coarsen and newDomain keep the boundary condition", "C29"),
    ("refine, coarsen and newDomain keep checking", "C29"),
    ("optimiser can pick every agent", "C26"),
    ("optimiser can use a single control", "C26"),
    ("optimiser returns the best of the starting", "C26"),
    ("agents picked by the optimiser are equally likely", "C26"),
    ("limits of zero on the position", "C26"),
    ("largest force on a coil can be calculated", "C26"),
    ("largest force on a coil includes", "C26"),
    ("length of field lines is positive", "C28"),
    ("points beyond a corner of the wall", "C28"),
    ("field lines are followed if the middle", "C28"),
    ("field lines can be followed from a single point", "C28"),
    ("field lines can be followed a long way between angles", "C28"),
    ("profiles can be used to solve another equilibrium", "C29"),
    ("profiles of refined equilibria aren't those of the original", "C29"),
    ("find_safety calculates the number", "C17"),
    ("turns of a MultiCoil are plotted", "C33"),
    ("both halves of a mirrored", "C33"),
    ("array of flux which an equilibrium is made from isn't modified", "C31"),
]
KNOWN = [
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], check=True,
                     capture_output=True, text=True).stdout.splitlines()
with open(os.path.join(HERE, "known_findings.txt"), "w") as f:
    f.write("# Defects found by the checks. 'fixed:' entries suppress nothing.\n")
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        match = [p for start, p in FIXED if s[5:].startswith(start)]
        assert len(match) == 1, s
        f.write("fixed: property={} {} {}\n".format(match[0], h, s[5:]))
    for line in KNOWN:
        f.write("KNOWN-FINDING: " + line + "\n")
