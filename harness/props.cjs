module.exports = {
  J01: {
    mc: [{ mod: 'JoinMC', cfg: 'JoinMC.cfg' }],
    gen: [{ mod: 'JoinMC', cfg: 'JoinGen.cfg', max_quick: 1500, max_thorough: 12000 }],
    driver: 'join', trace: 'JoinTrace'
  }
  ,D01: {
    mc: [{ mod: 'DataflowMC', cfg: 'DataflowMC.cfg', cfg_thorough: 'DataflowDeep.cfg', workers_thorough: 5 }, { mod: 'DataflowMC', cfg: 'DataflowLive.cfg' }],
    gen: [{ mod: 'DataflowMC', cfg: 'DataflowGenQ.cfg', cfg_thorough: 'DataflowGen.cfg', max_quick: 800, max_thorough: 12000 }],
    driver: 'dataflow', trace: 'DataflowTrace'
  }
  ,D02: {
    mc: [{ mod: 'DataflowMC', cfg: 'DataflowMC.cfg' }],
    driver: 'dataflow', trace: 'DataflowTrace'
  }
  ,S01: { mc: [{ mod: 'StatesMC', cfg: 'StatesMC.cfg' }], gen: [{ mod: 'StatesMC', cfg: 'StatesGen.cfg', max_quick: 1200, max_thorough: 20000 }], driver: 'states', trace: 'StatesTrace' }
  ,E01: { driver: 'encode', trace: 'EncodeTrace' }
  ,A01: { mc: [{ mod: 'AnimMC', cfg: 'AnimMC.cfg', cfg_thorough: 'AnimDeep.cfg', workers_thorough: 5 }, { mod: 'AnimMC', cfg: 'AnimLive.cfg' }], gen: [{ mod: 'AnimMC', cfg: 'AnimGen.cfg', max_quick: 600, max_thorough: 12000 }], driver: 'anim', trace: 'AnimTrace' }
  ,T01: { mc: [{ mod: 'XformMC', cfg: 'XformMC.cfg', cfg_thorough: 'XformDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'XformMC', cfg: 'XformGen.cfg', max_quick: 700, max_thorough: 8000 }], driver: 'xform', trace: 'XformTrace' }
  ,T02: { mc: [{ mod: 'XformMC', cfg: 'XformMC.cfg', cfg_thorough: 'XformDeep.cfg', workers_thorough: 5 }], driver: 'xform', trace: 'XformTrace' }
  ,C01: { mc: [{ mod: 'ScaleMC', cfg: 'ScaleMC.cfg', cfg_thorough: 'ScaleDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'ScaleMC', cfg: 'ScaleGen.cfg', max_quick: 600, max_thorough: 8000 }], driver: 'scale', trace: 'ScaleTrace' }
  ,I01: { mc: [{ mod: 'InteractMC', cfg: 'InteractMC.cfg', cfg_thorough: 'InteractDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'InteractMC', cfg: 'InteractGen.cfg', simulate: true, num: 800, num_thorough: 6000, max_quick: 800, max_thorough: 12000 }], driver: 'interact', trace: 'InteractTrace' }
  ,G01: { mc: [{ mod: 'SceneMC', cfg: 'SceneMC.cfg', cfg_thorough: 'SceneDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'SceneMC', cfg: 'SceneGen.cfg', simulate: true, num: 600, num_thorough: 6000, max_quick: 600, max_thorough: 8000 }], driver: 'scene', trace: 'SceneTrace' }
  ,V01: { mc: [{ mod: 'EventsMC', cfg: 'EventsMC.cfg', cfg_thorough: 'EventsDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'EventsMC', cfg: 'EventsGen.cfg', simulate: true, num: 800, num_thorough: 6000, max_quick: 800, max_thorough: 12000 }], driver: 'events', trace: 'EventsTrace' }
  ,K01: { mc: [{ mod: 'CoordMC', cfg: 'CoordMC.cfg', cfg_thorough: 'CoordDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'CoordMC', cfg: 'CoordGen.cfg', max_quick: 1200, max_thorough: 12000 }], driver: 'coord', trace: 'CoordTrace' }
  ,L01: { mc: [{ mod: 'LayoutMC', cfg: 'LayoutMC.cfg', cfg_thorough: 'LayoutDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'LayoutMC', cfg: 'LayoutGen.cfg', simulate: true, num: 500, num_thorough: 5000, max_quick: 500, max_thorough: 8000 }], driver: 'layout', trace: 'LayoutTrace' }
  ,P01: { mc: [{ mod: 'ProgressMC', cfg: 'ProgressMC.cfg', cfg_thorough: 'ProgressDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'ProgressMC', cfg: 'ProgressGen.cfg', simulate: true, num: 500, num_thorough: 5000, max_quick: 500, max_thorough: 8000 }], driver: 'progress', trace: 'ProgressTrace' }
  ,H01: { mc: [{ mod: 'HierMC', cfg: 'HierMC.cfg', cfg_thorough: 'HierDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'HierMC', cfg: 'HierGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 400, max_thorough: 6000 }], driver: 'hier', trace: 'HierTrace' }
  ,N01: { mc: [{ mod: 'SankeyMC', cfg: 'SankeyMC.cfg', cfg_thorough: 'SankeyDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'SankeyMC', cfg: 'SankeyGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 400, max_thorough: 6000 }], driver: 'sankey', trace: 'SankeyTrace' }
  ,M01: { mc: [{ mod: 'GuideMC', cfg: 'GuideMC.cfg', cfg_thorough: 'GuideDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'GuideMC', cfg: 'GuideGen.cfg', simulate: true, num: 500, num_thorough: 4000, max_quick: 400, max_thorough: 6000 }], driver: 'guide', trace: 'GuideTrace' }
  ,M02: { mc: [{ mod: 'GadgetMC', cfg: 'GadgetMC.cfg', cfg_thorough: 'GadgetDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'GadgetMC', cfg: 'GadgetGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 300, max_thorough: 6000 }], driver: 'gadget', trace: 'GadgetTrace' }
  ,I02: { mc: [{ mod: 'SiftMC', cfg: 'SiftMC.cfg', cfg_thorough: 'SiftDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'SiftMC', cfg: 'SiftGen.cfg', simulate: true, num: 500, num_thorough: 5000, max_quick: 150, max_thorough: 6000 }], driver: 'sift', trace: 'SiftTrace' }
  ,B01: { mc: [{ mod: 'PlotMC', cfg: 'PlotMC.cfg', cfg_thorough: 'PlotDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'PlotMC', cfg: 'PlotGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 250, max_thorough: 6000 }], driver: 'plot', trace: 'PlotTrace' }
  ,Y01: { mc: [{ mod: 'GlyphMC', cfg: 'GlyphMC.cfg', cfg_thorough: 'GlyphDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'GlyphMC', cfg: 'GlyphGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 200, max_thorough: 5000 }], driver: 'glyph', trace: 'GlyphTrace' }
  ,I03: { mc: [{ mod: 'HoverMC', cfg: 'HoverMC.cfg', cfg_thorough: 'HoverDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'HoverMC', cfg: 'HoverGen.cfg', simulate: true, num: 400, num_thorough: 5000, max_quick: 300, max_thorough: 6000 }], driver: 'hover', trace: 'HoverTrace' }
  ,O01: { mc: [{ mod: 'NudgeMC', cfg: 'NudgeMC.cfg', cfg_thorough: 'NudgeDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'NudgeMC', cfg: 'NudgeGen.cfg', simulate: true, num: 300, num_thorough: 5000, max_quick: 250, max_thorough: 6000 }], driver: 'nudge', trace: 'NudgeTrace' }
  ,I04: { mc: [{ mod: 'BrushMC', cfg: 'BrushMC.cfg', cfg_thorough: 'BrushDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'BrushMC', cfg: 'BrushGen.cfg', simulate: true, num: 200, num_thorough: 3000, max_quick: 150, max_thorough: 3000 }], driver: 'brush', trace: 'BrushTrace' }
  ,I05: { mc: [{ mod: 'ViewNavMC', cfg: 'ViewNavMC.cfg', cfg_thorough: 'ViewNavDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'ViewNavMC', cfg: 'ViewNavGen.cfg', simulate: true, num: 400, num_thorough: 4000, max_quick: 350, max_thorough: 4000 }], driver: 'viewnav', trace: 'ViewNavTrace' }
  ,I07: { mc: [{ mod: 'LensMC', cfg: 'LensMC.cfg', cfg_thorough: 'LensDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'LensMC', cfg: 'LensGen.cfg', simulate: true, num: 500, num_thorough: 8000, max_quick: 500, max_thorough: 8000 }], driver: 'lens', trace: 'LensTrace' }
  ,I06: { mc: [{ mod: 'FlowMC', cfg: 'FlowMC.cfg', cfg_thorough: 'FlowDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'FlowMC', cfg: 'FlowGen.cfg', simulate: true, num: 500, num_thorough: 8000, max_quick: 500, max_thorough: 8000 }], driver: 'flow', trace: 'FlowTrace' }
  ,A02: { mc: [{ mod: 'MotionMC', cfg: 'MotionMC.cfg', cfg_thorough: 'MotionDeep.cfg', workers_thorough: 5 }], gen: [{ mod: 'MotionMC', cfg: 'MotionGen.cfg', simulate: true, num: 500, num_thorough: 6000, max_quick: 500, max_thorough: 6000 }], driver: 'motion', trace: 'MotionTrace' }
};
