from sim.runner import main

main()
