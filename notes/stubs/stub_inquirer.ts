export default { prompt: async (_q: any): Promise<any> => ({}) };
